package router

import "github.com/lesismal/arpc"

// C21 for the graceful middleware; see root/c21.go.

//@ contract (*Graceful).Shutdown
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkShutdown(g *Graceful) {
	g.Shutdown()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Graceful).Handler
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkHandle(g *Graceful, ctx *arpc.Context) arpc.HandlerFunc {
	h := g.Handler()
	h(ctx)
	vcEnsures("C21.no lock stays held", vcAnd(vcLocks() == 0, vcOr(vcPanicked(), true)))
	return h
}
