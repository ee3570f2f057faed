package tru

// C18: packet numbers are compared circularly.

// vCase_C18_distance: for every pair of packet numbers the distance is the
// signed shortest way round.
func vCase_C18_distance() {
	exp := vU32("expected")
	d := vInt("d", -vLimit/2, vLimit/2-1)
	vAssume(exp < vLimit)
	id := uint32((int(exp) + d + vLimit) % vLimit)
	pac := &Packet{}
	got := pac.distance(exp, id)
	vObs("got", got)
	vAssert(got == d, "distance is not the signed circular difference")
	vReach("done")
}

func vCase_C18_antisym() {
	a := vU32("a")
	b := vU32("b")
	vAssume(a < vLimit && b < vLimit)
	pac := &Packet{}
	x := pac.distance(a, b)
	y := pac.distance(b, a)
	vAssert((x == 0) == (a == b), "distance zero does not mean equal numbers")
	vAssert(x == -y || x == -vLimit/2 && y == -vLimit/2, "distance is not antisymmetric")
	vReach("done")
}
