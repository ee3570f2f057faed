package tru

import "strings"

// vMsgs is the endpoint's event log.
func vMsgs(t *Tru) []string {
	p, ok := vFieldPtr(t, "statMsgs.msgs").(*[]string)
	if !ok {
		vInconclusive("the event log's messages are not a []string field named msgs")
	}
	return *p
}

// vCase_C22_endpoint: an endpoint with any number of earlier messages in its log
// logs its channels coming and going as the latest ones.
func vCase_C22_endpoint() {
	t, _, p := vServe()
	vAssert(len(vMsgs(t)) == 1 && strings.HasSuffix(vMsgs(t)[0], "new channel "+p.addr), "a new channel is not logged")
	fill := vConcrete(vInt("earlier", 250, 258))
	m, ok := vFieldPtr(t, "statMsgs.msgs").(*[]string)
	if !ok {
		vInconclusive("the event log's messages are not a []string field named msgs")
	}
	if fill > 256 {
		fill = 256
	}
	for len(*m) < fill {
		*m = append(*m, "earlier")
	}
	vChannel(t, p.addr).Close()
	q := vNewPeer(p.c, "10.9.9.2:5001")
	q.dial()
	ms := vMsgs(t)
	want := fill + 2
	if want > 256 {
		want = 256
	}
	vAssert(len(ms) == want, "the event log does not keep 256 messages")
	vAssert(strings.Contains(ms[want-2], "destroy "+p.addr), "a channel's end is not logged")
	vAssert(strings.HasSuffix(ms[want-1], "new channel "+q.addr), "a new channel is not logged")
	vReach("done")
}
