// Command rw explores every schedule of the programs of mc/rwtest, which went through the rewriter,
// and prints the results seen (selftest.sh compares them with what each program can return).
package main

import (
	"fmt"
	"os"

	"go.opencensus.io/internal/rwtest"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
)

func main() {
	for i := range rwtest.Programs {
		p := rwtest.Programs[i]
		vh.Add(&vh.Task{Prop: "RW", Name: fmt.Sprint("p", i), Bound: [2]int{99, 99}, Body: func() {
			vsched.Explore(true)
			got := p.F()
			vsched.Explore(false)
			for _, w := range p.Want {
				if got == w {
					vsched.Outcome("%s", got)
					return
				}
			}
			vsched.Failf("%s: %q", p.Name, got)
		}})
	}
	n := ""
	for _, p := range rwtest.Programs {
		n += fmt.Sprint(len(p.Want), " ")
	}
	if len(os.Args) > 4 && os.Args[4] == "wants" {
		fmt.Println("wants:", n)
		return
	}
	vh.Main()
}
