package arpc

// C18: client pools.
//
// The round counter is shared with concurrent calls and may have any value at any time; the
// state of the members may change at any time too, so "usable" is what the call itself observed.
//
//@ volatile arpc.ClientPool.round

func spPoolOK(p *ClientPool) bool {
	return vcAnd(p.size == uint64(len(p.clients)), vcAnd(p.size > 0, p.size <= 1<<16))
}

//@ contract (*ClientPool).Get
//@ property C18
//@ panicfree
func ctPoolGet(p *ClientPool, index int) *Client {
	vcRequires(spPoolOK(p))
	c := p.Get(index)
	if index >= 0 {
		vcEnsures("C18.lookup by index is modulo the pool size", c == p.clients[index%len(p.clients)])
	}
	i := uint64(index) % p.size
	vcEnsures("C18.lookup returns a member", c == p.clients[i])
	return c
}

//@ contract (*ClientPool).Size
//@ property C18
//@ panicfree
func ctPoolSize(p *ClientPool) int {
	vcRequires(spPoolOK(p))
	n := p.Size()
	vcEnsures("C18.size is the number of members", uint64(n) == p.size)
	return n
}

// ghost: how many members were looked at, the first and the last one, whether each one was
// followed by its successor, and how many steps the arbitrary member gWant was away at first
var gSeen uint64
var gFirst uint64
var gLast uint64
var gTurn bool
var gWant uint64
var gDist uint64

func spSucc(i, size uint64) uint64 {
	if i+1 == size {
		return 0
	}
	return i + 1
}

//@ op load arpc.ClientPool.clients[]
//@ theory pool
func hkMember(p *ClientPool, c *Client, i uint64) {
	vcAssume(c != nil)
	if gSeen == 0 {
		gFirst = i
		gSeen = 1
		if gWant >= i {
			gDist = gWant - i
		} else {
			gDist = gWant + p.size - i
		}
	} else if i != gLast {
		if i != spSucc(gLast, p.size) {
			gTurn = false
		}
		gSeen++
	}
	gLast = i
}

// k is an arbitrary member: if it is usable, so is the result. The search goes once around from
// an arbitrary start, so every member is reached.
//
//@ contract (*ClientPool).Next
//@ property C18
//@ theory pool
//@ panicfree
func ctPoolNext(p *ClientPool, k uint64) *Client {
	vcRequires(spPoolOK(p))
	vcRequires(k < p.size)
	vcRequires(p.clients[k] != nil)
	kc := p.clients[k]
	usable := vcAnd(kc.running, !kc.reconnecting)
	gSeen = 0
	gTurn = true
	gWant = k
	size := p.size
	vcHint("members in turn", func() bool { return gTurn })
	vcHint("ghost ranges", func() bool {
		return vcAnd(vcAnd(gSeen > 0, gSeen <= size), vcAnd(gFirst < size, vcAnd(gLast < size, gDist < size)))
	})
	vcHint("last member", func() bool { return vcOr(gLast == gFirst+gSeen-1, gLast == gFirst+gSeen-1-size) })
	vcHint("k is still ahead", func() bool { return vcImp(usable, gSeen <= gDist) })
	c := p.Next()
	vcEnsures("C18.round robin returns a client", c != nil)
	vcEnsures("C18.round robin visits the members in turn", gTurn)
	vcEnsures("C18.a usable member is returned whenever there is one", vcImp(usable, vcAnd(c.running, !c.reconnecting)))
	return c
}

//@ contract NewClient
//@ property C18
//@ theory pool
//@ modular
func ctNewClient(dialer DialerFunc, args []interface{}) (*Client, error) {
	vcRequires(spEnvOK())
	vcRequires(vcImp(len(args) > 0, spHandlerArg(args)))
	c, err := NewClient(dialer, args...)
	vcEnsures("C18.a new client comes without error", vcIff(err == nil, c != nil))
	if err == nil {
		vcEnsures("C18.a new client is running", c.running)
	}
	return c, err
}

func spHandlerArg(args []interface{}) bool {
	h, ok := args[0].(*handler)
	return vcAnd(ok, h != nil)
}

// ghost: the members of the pool being built, an arbitrary one of them, and how many were built
var gPoolC []*Client
var gPoolBuilt int

//@ op store arpc.ClientPool.clients
//@ theory pool
func hkPoolClients(p *ClientPool, cs []*Client) {
	gPoolC = cs
	gPoolBuilt = 0
}

//@ op store arpc.ClientPool.clients[]
//@ theory pool
func hkPoolSet(p *ClientPool, c *Client, i int) { gPoolBuilt++ }

func spNewPoolOK(p *ClientPool, n int, k int) {
	vcEnsures("C18.a new pool has as many members as asked for", vcAnd(len(p.clients) == n, p.size == uint64(n)))
	vcEnsures("C18.every member of a new pool is a client", vcImp(vcAnd(0 <= k, k < n), p.clients[k] != nil))
}

// k is an arbitrary member.
//
//@ contract NewClientPool
//@ property C18
//@ theory pool
func ctNewClientPool(dialer DialerFunc, size int, args []interface{}, k int) (*ClientPool, error) {
	vcRequires(vcAnd(dialer != nil, spEnvOK()))
	vcRequires(vcImp(len(args) > 0, spHandlerArg(args)))
	vcRequires(vcAnd(0 < size, size <= 1<<20))
	vcRequires(vcAnd(0 <= k, k < size))
	gPoolBuilt = 0
	vcHint("members so far", func() bool { return vcImp(k < gPoolBuilt, gPoolC[k] != nil) })
	vcHint("members", func() bool { return vcAnd(len(gPoolC) == size, vcAnd(0 <= gPoolBuilt, gPoolBuilt <= size)) })
	p, err := NewClientPool(dialer, size, args...)
	vcEnsures("C18.a pool comes without error", vcIff(err == nil, p != nil))
	if err == nil {
		spNewPoolOK(p, size, k)
	}
	return p, err
}

//@ contract NewClientPoolFromDialers
//@ property C18
//@ theory pool
func ctNewClientPoolFromDialers(dialers []DialerFunc, args []interface{}, k int) (*ClientPool, error) {
	vcRequires(spEnvOK())
	vcRequires(vcImp(len(args) > 0, spHandlerArg(args)))
	vcRequires(len(dialers) <= 1<<20)
	vcRequires(vcAnd(0 <= k, vcImp(len(dialers) > 0, k < len(dialers))))
	gPoolC = nil
	size := len(dialers)
	vcHint("members so far", func() bool { return vcImp(k < len(gPoolC), gPoolC[k] != nil) })
	vcHint("members", func() bool { return len(gPoolC) <= size })
	p, err := NewClientPoolFromDialers(dialers, args...)
	vcEnsures("C18.a pool comes without error", vcIff(err == nil, p != nil))
	vcEnsures("C18.no dialers, no pool", vcImp(len(dialers) == 0, err != nil))
	if err == nil {
		spNewPoolOK(p, len(dialers), k)
	}
	return p, err
}

// Cloning gives some handler (see C10).
//
//@ extern (*arpc.handler).Clone
//@ theory pool
func exClonePool(h *handler) Handler { return &handler{} }
