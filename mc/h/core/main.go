// Command core holds the harnesses for everything except the RPC/HTTP plugins and zpages.
package main

import "go.opencensus.io/internal/vh"

func main() { vh.Main() }
