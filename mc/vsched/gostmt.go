package vsched

// Code written by tools/gengo.py; DO NOT EDIT.

// GnRm and GVnRm give a function that starts f in a goroutine, with arguments evaluated by the
// caller, for f with n fixed parameters and m results; GV is for variadic f.

func G0R0(f func()) func() {
	return func() { Go(func() { f() }) }
}

func G0R1[R0 any](f func() R0) func() {
	return func() { Go(func() { f() }) }
}

func G0R2[R0, R1 any](f func() (R0, R1)) func() {
	return func() { Go(func() { f() }) }
}

func G0R3[R0, R1, R2 any](f func() (R0, R1, R2)) func() {
	return func() { Go(func() { f() }) }
}

func G1R0[A0 any](f func(A0)) func(A0) {
	return func(a0 A0) { Go(func() { f(a0) }) }
}

func G1R1[A0, R0 any](f func(A0) R0) func(A0) {
	return func(a0 A0) { Go(func() { f(a0) }) }
}

func G1R2[A0, R0, R1 any](f func(A0) (R0, R1)) func(A0) {
	return func(a0 A0) { Go(func() { f(a0) }) }
}

func G1R3[A0, R0, R1, R2 any](f func(A0) (R0, R1, R2)) func(A0) {
	return func(a0 A0) { Go(func() { f(a0) }) }
}

func G2R0[A0, A1 any](f func(A0, A1)) func(A0, A1) {
	return func(a0 A0, a1 A1) { Go(func() { f(a0, a1) }) }
}

func G2R1[A0, A1, R0 any](f func(A0, A1) R0) func(A0, A1) {
	return func(a0 A0, a1 A1) { Go(func() { f(a0, a1) }) }
}

func G2R2[A0, A1, R0, R1 any](f func(A0, A1) (R0, R1)) func(A0, A1) {
	return func(a0 A0, a1 A1) { Go(func() { f(a0, a1) }) }
}

func G2R3[A0, A1, R0, R1, R2 any](f func(A0, A1) (R0, R1, R2)) func(A0, A1) {
	return func(a0 A0, a1 A1) { Go(func() { f(a0, a1) }) }
}

func G3R0[A0, A1, A2 any](f func(A0, A1, A2)) func(A0, A1, A2) {
	return func(a0 A0, a1 A1, a2 A2) { Go(func() { f(a0, a1, a2) }) }
}

func G3R1[A0, A1, A2, R0 any](f func(A0, A1, A2) R0) func(A0, A1, A2) {
	return func(a0 A0, a1 A1, a2 A2) { Go(func() { f(a0, a1, a2) }) }
}

func G3R2[A0, A1, A2, R0, R1 any](f func(A0, A1, A2) (R0, R1)) func(A0, A1, A2) {
	return func(a0 A0, a1 A1, a2 A2) { Go(func() { f(a0, a1, a2) }) }
}

func G3R3[A0, A1, A2, R0, R1, R2 any](f func(A0, A1, A2) (R0, R1, R2)) func(A0, A1, A2) {
	return func(a0 A0, a1 A1, a2 A2) { Go(func() { f(a0, a1, a2) }) }
}

func G4R0[A0, A1, A2, A3 any](f func(A0, A1, A2, A3)) func(A0, A1, A2, A3) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3) { Go(func() { f(a0, a1, a2, a3) }) }
}

func G4R1[A0, A1, A2, A3, R0 any](f func(A0, A1, A2, A3) R0) func(A0, A1, A2, A3) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3) { Go(func() { f(a0, a1, a2, a3) }) }
}

func G4R2[A0, A1, A2, A3, R0, R1 any](f func(A0, A1, A2, A3) (R0, R1)) func(A0, A1, A2, A3) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3) { Go(func() { f(a0, a1, a2, a3) }) }
}

func G4R3[A0, A1, A2, A3, R0, R1, R2 any](f func(A0, A1, A2, A3) (R0, R1, R2)) func(A0, A1, A2, A3) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3) { Go(func() { f(a0, a1, a2, a3) }) }
}

func G5R0[A0, A1, A2, A3, A4 any](f func(A0, A1, A2, A3, A4)) func(A0, A1, A2, A3, A4) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4) { Go(func() { f(a0, a1, a2, a3, a4) }) }
}

func G5R1[A0, A1, A2, A3, A4, R0 any](f func(A0, A1, A2, A3, A4) R0) func(A0, A1, A2, A3, A4) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4) { Go(func() { f(a0, a1, a2, a3, a4) }) }
}

func G5R2[A0, A1, A2, A3, A4, R0, R1 any](f func(A0, A1, A2, A3, A4) (R0, R1)) func(A0, A1, A2, A3, A4) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4) { Go(func() { f(a0, a1, a2, a3, a4) }) }
}

func G5R3[A0, A1, A2, A3, A4, R0, R1, R2 any](f func(A0, A1, A2, A3, A4) (R0, R1, R2)) func(A0, A1, A2, A3, A4) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4) { Go(func() { f(a0, a1, a2, a3, a4) }) }
}

func G6R0[A0, A1, A2, A3, A4, A5 any](f func(A0, A1, A2, A3, A4, A5)) func(A0, A1, A2, A3, A4, A5) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5) { Go(func() { f(a0, a1, a2, a3, a4, a5) }) }
}

func G6R1[A0, A1, A2, A3, A4, A5, R0 any](f func(A0, A1, A2, A3, A4, A5) R0) func(A0, A1, A2, A3, A4, A5) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5) { Go(func() { f(a0, a1, a2, a3, a4, a5) }) }
}

func G6R2[A0, A1, A2, A3, A4, A5, R0, R1 any](f func(A0, A1, A2, A3, A4, A5) (R0, R1)) func(A0, A1, A2, A3, A4, A5) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5) { Go(func() { f(a0, a1, a2, a3, a4, a5) }) }
}

func G6R3[A0, A1, A2, A3, A4, A5, R0, R1, R2 any](f func(A0, A1, A2, A3, A4, A5) (R0, R1, R2)) func(A0, A1, A2, A3, A4, A5) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5) { Go(func() { f(a0, a1, a2, a3, a4, a5) }) }
}

func G7R0[A0, A1, A2, A3, A4, A5, A6 any](f func(A0, A1, A2, A3, A4, A5, A6)) func(A0, A1, A2, A3, A4, A5, A6) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6) }) }
}

func G7R1[A0, A1, A2, A3, A4, A5, A6, R0 any](f func(A0, A1, A2, A3, A4, A5, A6) R0) func(A0, A1, A2, A3, A4, A5, A6) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6) }) }
}

func G7R2[A0, A1, A2, A3, A4, A5, A6, R0, R1 any](f func(A0, A1, A2, A3, A4, A5, A6) (R0, R1)) func(A0, A1, A2, A3, A4, A5, A6) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6) }) }
}

func G7R3[A0, A1, A2, A3, A4, A5, A6, R0, R1, R2 any](f func(A0, A1, A2, A3, A4, A5, A6) (R0, R1, R2)) func(A0, A1, A2, A3, A4, A5, A6) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6) }) }
}

func G8R0[A0, A1, A2, A3, A4, A5, A6, A7 any](f func(A0, A1, A2, A3, A4, A5, A6, A7)) func(A0, A1, A2, A3, A4, A5, A6, A7) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, a7 A7) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, a7) }) }
}

func G8R1[A0, A1, A2, A3, A4, A5, A6, A7, R0 any](f func(A0, A1, A2, A3, A4, A5, A6, A7) R0) func(A0, A1, A2, A3, A4, A5, A6, A7) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, a7 A7) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, a7) }) }
}

func G8R2[A0, A1, A2, A3, A4, A5, A6, A7, R0, R1 any](f func(A0, A1, A2, A3, A4, A5, A6, A7) (R0, R1)) func(A0, A1, A2, A3, A4, A5, A6, A7) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, a7 A7) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, a7) }) }
}

func G8R3[A0, A1, A2, A3, A4, A5, A6, A7, R0, R1, R2 any](f func(A0, A1, A2, A3, A4, A5, A6, A7) (R0, R1, R2)) func(A0, A1, A2, A3, A4, A5, A6, A7) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, a7 A7) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, a7) }) }
}

func GV0R0[B any](f func(...B)) func(...B) {
	return func(b ...B) { Go(func() { f(b...) }) }
}

func GV0R1[B, R0 any](f func(...B) R0) func(...B) {
	return func(b ...B) { Go(func() { f(b...) }) }
}

func GV0R2[B, R0, R1 any](f func(...B) (R0, R1)) func(...B) {
	return func(b ...B) { Go(func() { f(b...) }) }
}

func GV0R3[B, R0, R1, R2 any](f func(...B) (R0, R1, R2)) func(...B) {
	return func(b ...B) { Go(func() { f(b...) }) }
}

func GV1R0[A0, B any](f func(A0, ...B)) func(A0, ...B) {
	return func(a0 A0, b ...B) { Go(func() { f(a0, b...) }) }
}

func GV1R1[A0, B, R0 any](f func(A0, ...B) R0) func(A0, ...B) {
	return func(a0 A0, b ...B) { Go(func() { f(a0, b...) }) }
}

func GV1R2[A0, B, R0, R1 any](f func(A0, ...B) (R0, R1)) func(A0, ...B) {
	return func(a0 A0, b ...B) { Go(func() { f(a0, b...) }) }
}

func GV1R3[A0, B, R0, R1, R2 any](f func(A0, ...B) (R0, R1, R2)) func(A0, ...B) {
	return func(a0 A0, b ...B) { Go(func() { f(a0, b...) }) }
}

func GV2R0[A0, A1, B any](f func(A0, A1, ...B)) func(A0, A1, ...B) {
	return func(a0 A0, a1 A1, b ...B) { Go(func() { f(a0, a1, b...) }) }
}

func GV2R1[A0, A1, B, R0 any](f func(A0, A1, ...B) R0) func(A0, A1, ...B) {
	return func(a0 A0, a1 A1, b ...B) { Go(func() { f(a0, a1, b...) }) }
}

func GV2R2[A0, A1, B, R0, R1 any](f func(A0, A1, ...B) (R0, R1)) func(A0, A1, ...B) {
	return func(a0 A0, a1 A1, b ...B) { Go(func() { f(a0, a1, b...) }) }
}

func GV2R3[A0, A1, B, R0, R1, R2 any](f func(A0, A1, ...B) (R0, R1, R2)) func(A0, A1, ...B) {
	return func(a0 A0, a1 A1, b ...B) { Go(func() { f(a0, a1, b...) }) }
}

func GV3R0[A0, A1, A2, B any](f func(A0, A1, A2, ...B)) func(A0, A1, A2, ...B) {
	return func(a0 A0, a1 A1, a2 A2, b ...B) { Go(func() { f(a0, a1, a2, b...) }) }
}

func GV3R1[A0, A1, A2, B, R0 any](f func(A0, A1, A2, ...B) R0) func(A0, A1, A2, ...B) {
	return func(a0 A0, a1 A1, a2 A2, b ...B) { Go(func() { f(a0, a1, a2, b...) }) }
}

func GV3R2[A0, A1, A2, B, R0, R1 any](f func(A0, A1, A2, ...B) (R0, R1)) func(A0, A1, A2, ...B) {
	return func(a0 A0, a1 A1, a2 A2, b ...B) { Go(func() { f(a0, a1, a2, b...) }) }
}

func GV3R3[A0, A1, A2, B, R0, R1, R2 any](f func(A0, A1, A2, ...B) (R0, R1, R2)) func(A0, A1, A2, ...B) {
	return func(a0 A0, a1 A1, a2 A2, b ...B) { Go(func() { f(a0, a1, a2, b...) }) }
}

func GV4R0[A0, A1, A2, A3, B any](f func(A0, A1, A2, A3, ...B)) func(A0, A1, A2, A3, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, b ...B) { Go(func() { f(a0, a1, a2, a3, b...) }) }
}

func GV4R1[A0, A1, A2, A3, B, R0 any](f func(A0, A1, A2, A3, ...B) R0) func(A0, A1, A2, A3, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, b ...B) { Go(func() { f(a0, a1, a2, a3, b...) }) }
}

func GV4R2[A0, A1, A2, A3, B, R0, R1 any](f func(A0, A1, A2, A3, ...B) (R0, R1)) func(A0, A1, A2, A3, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, b ...B) { Go(func() { f(a0, a1, a2, a3, b...) }) }
}

func GV4R3[A0, A1, A2, A3, B, R0, R1, R2 any](f func(A0, A1, A2, A3, ...B) (R0, R1, R2)) func(A0, A1, A2, A3, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, b ...B) { Go(func() { f(a0, a1, a2, a3, b...) }) }
}

func GV5R0[A0, A1, A2, A3, A4, B any](f func(A0, A1, A2, A3, A4, ...B)) func(A0, A1, A2, A3, A4, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, b...) }) }
}

func GV5R1[A0, A1, A2, A3, A4, B, R0 any](f func(A0, A1, A2, A3, A4, ...B) R0) func(A0, A1, A2, A3, A4, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, b...) }) }
}

func GV5R2[A0, A1, A2, A3, A4, B, R0, R1 any](f func(A0, A1, A2, A3, A4, ...B) (R0, R1)) func(A0, A1, A2, A3, A4, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, b...) }) }
}

func GV5R3[A0, A1, A2, A3, A4, B, R0, R1, R2 any](f func(A0, A1, A2, A3, A4, ...B) (R0, R1, R2)) func(A0, A1, A2, A3, A4, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, b...) }) }
}

func GV6R0[A0, A1, A2, A3, A4, A5, B any](f func(A0, A1, A2, A3, A4, A5, ...B)) func(A0, A1, A2, A3, A4, A5, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, b...) }) }
}

func GV6R1[A0, A1, A2, A3, A4, A5, B, R0 any](f func(A0, A1, A2, A3, A4, A5, ...B) R0) func(A0, A1, A2, A3, A4, A5, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, b...) }) }
}

func GV6R2[A0, A1, A2, A3, A4, A5, B, R0, R1 any](f func(A0, A1, A2, A3, A4, A5, ...B) (R0, R1)) func(A0, A1, A2, A3, A4, A5, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, b...) }) }
}

func GV6R3[A0, A1, A2, A3, A4, A5, B, R0, R1, R2 any](f func(A0, A1, A2, A3, A4, A5, ...B) (R0, R1, R2)) func(A0, A1, A2, A3, A4, A5, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, b...) }) }
}

func GV7R0[A0, A1, A2, A3, A4, A5, A6, B any](f func(A0, A1, A2, A3, A4, A5, A6, ...B)) func(A0, A1, A2, A3, A4, A5, A6, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, b...) }) }
}

func GV7R1[A0, A1, A2, A3, A4, A5, A6, B, R0 any](f func(A0, A1, A2, A3, A4, A5, A6, ...B) R0) func(A0, A1, A2, A3, A4, A5, A6, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, b...) }) }
}

func GV7R2[A0, A1, A2, A3, A4, A5, A6, B, R0, R1 any](f func(A0, A1, A2, A3, A4, A5, A6, ...B) (R0, R1)) func(A0, A1, A2, A3, A4, A5, A6, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, b...) }) }
}

func GV7R3[A0, A1, A2, A3, A4, A5, A6, B, R0, R1, R2 any](f func(A0, A1, A2, A3, A4, A5, A6, ...B) (R0, R1, R2)) func(A0, A1, A2, A3, A4, A5, A6, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, b...) }) }
}

func GV8R0[A0, A1, A2, A3, A4, A5, A6, A7, B any](f func(A0, A1, A2, A3, A4, A5, A6, A7, ...B)) func(A0, A1, A2, A3, A4, A5, A6, A7, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, a7 A7, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, a7, b...) }) }
}

func GV8R1[A0, A1, A2, A3, A4, A5, A6, A7, B, R0 any](f func(A0, A1, A2, A3, A4, A5, A6, A7, ...B) R0) func(A0, A1, A2, A3, A4, A5, A6, A7, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, a7 A7, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, a7, b...) }) }
}

func GV8R2[A0, A1, A2, A3, A4, A5, A6, A7, B, R0, R1 any](f func(A0, A1, A2, A3, A4, A5, A6, A7, ...B) (R0, R1)) func(A0, A1, A2, A3, A4, A5, A6, A7, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, a7 A7, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, a7, b...) }) }
}

func GV8R3[A0, A1, A2, A3, A4, A5, A6, A7, B, R0, R1, R2 any](f func(A0, A1, A2, A3, A4, A5, A6, A7, ...B) (R0, R1, R2)) func(A0, A1, A2, A3, A4, A5, A6, A7, ...B) {
	return func(a0 A0, a1 A1, a2 A2, a3 A3, a4 A4, a5 A5, a6 A6, a7 A7, b ...B) { Go(func() { f(a0, a1, a2, a3, a4, a5, a6, a7, b...) }) }
}
