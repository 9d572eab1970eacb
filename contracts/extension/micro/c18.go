package micro

import "github.com/lesismal/arpc"

// C18: service lists.

// ghost: which clients are usable, nodes looked at, the first and the last one, whether each one
// was followed by its successor, and how far the arbitrary node gWant was away at first
type gmapUsable map[uint64]bool

var gUsable gmapUsable
var gSeen uint64
var gFirst uint64
var gLast uint64
var gTurn bool
var gWant uint64
var gDist uint64
var gSize uint64
var gLooks uint64

//@ extern (*arpc.Client).CheckState
//@ theory svc
func exCheckState(c *arpc.Client, err error) error {
	vcAssume(vcIff(err == nil, gUsable[uint64(vcId(c))]))
	return err
}

//@ op load micro.serviceNodeList.nodes[]
//@ theory svc
func hkNode(l *serviceNodeList, n *ServiceNode, i uint64) {
	vcAssume(n != nil)
	gLooks++
	if gSeen == 0 {
		gFirst = i
		gSeen = 1
		if gWant >= i {
			gDist = gWant - i
		} else {
			gDist = gWant + gSize - i
		}
	} else if i != gLast {
		if i != spSucc(gLast, gSize) {
			gTurn = false
		}
		gSeen++
	}
	gLast = i
}


func spSucc(i, size uint64) uint64 {
	if i+1 == size {
		return 0
	}
	return i + 1
}

// k is an arbitrary node of the list.
//
//@ contract (*serviceNodeList).next
//@ property C18
//@ theory svc
//@ panicfree
func ctListNext(l *serviceNodeList, k uint64) (*arpc.Client, error) {
	n := uint64(len(l.nodes))
	vcRequires(vcAnd(n <= 1<<20, l.index < 1<<62))
	var kn *ServiceNode
	if n > 0 {
		vcRequires(k < n)
		kn = l.nodes[k]
		vcRequires(kn != nil)
	}
	gSeen = 0
	gLooks = 0
	index0 := l.index
	gTurn = true
	gWant = k
	gSize = n
	kok := false
	if n > 0 {
		kok = vcAnd(kn.client != nil, gUsable[uint64(vcId(kn.client))])
	}
	vcHint("nodes in turn", func() bool { return vcAnd(gTurn, gSeen <= n) })
	vcHint("ranges", func() bool { return vcImp(gSeen > 0, vcAnd(gFirst < n, vcAnd(gLast < n, gDist < n))) })
	vcHint("last node", func() bool {
		return vcImp(gSeen > 0, vcOr(gLast == gFirst+gSeen-1, gLast == gFirst+gSeen-1-n))
	})
	vcHint("distance", func() bool { return vcImp(gSeen > 0, vcOr(gDist == k-gFirst, gDist == k+n-gFirst)) })
	vcHint("index", func() bool { return vcImp(gSeen > 0, gLast == l.index%n) })
	vcHint("one step per look", func() bool { return vcAnd(l.index == index0+gLooks, gLooks <= n) })
	vcHint("looks", func() bool { return vcImp(n > 1, gSeen == gLooks) })
	vcHint("k is still ahead", func() bool { return vcImp(vcAnd(gSeen > 0, kok), gSeen <= gDist) })
	c, err := l.next()
	if err == nil {
		vcCover("found")
		vcEnsures("C18.the returned client is usable", vcAnd(c != nil, gUsable[uint64(vcId(c))]))
		vcEnsures("C18.the returned client belongs to a node of the list", vcAnd(gLast < n, l.nodes[gLast].client == c))
	} else {
		vcCover("none")
		vcEnsures("C18.no node reports not found", vcIff(n == 0, err == ErrServiceNotFound))
		vcEnsures("C18.otherwise unreachable", vcImp(n > 0, err == ErrServiceUnreachable))
		vcEnsures("C18.a usable node is found whenever there is one", !kok)
	}
	vcEnsures("C18.selection visits the nodes in turn", gTurn)
	return c, err
}

// ghost: the list ClientBy asked
var gAsked *serviceNodeList
var gAnswer *arpc.Client
var gAnswerErr error

//@ extern (*micro.serviceNodeList).next
//@ theory svcby
func exNext(l *serviceNodeList, c *arpc.Client, err error) (*arpc.Client, error) {
	gAsked = l
	gAnswer = c
	gAnswerErr = err
	return c, err
}

//@ contract (*serviceManager).ClientBy
//@ property C18
//@ theory svcby
//@ panicfree
func ctClientBy(s *serviceManager, name string) (*arpc.Client, error) {
	vcRequires(s.serviceList != nil)
	want, ok := s.serviceList[name]
	vcRequires(vcImp(ok, want != nil))
	gAsked = nil
	c, err := s.ClientBy(name)
	vcEnsures("C18.an unknown service is not found", vcImp(!ok, vcAnd(err == ErrServiceNotFound, gAsked == nil)))
	if ok {
		vcCover("known")
		vcEnsures("C18.a known service is looked up in its own list", vcAnd(gAsked == want, vcAnd(c == gAnswer, err == gAnswerErr)))
	}
	return c, err
}

// ghost: what was added or removed
var gAddr string
var gNodes []*ServiceNode
var gCalls int

//@ extern (*micro.serviceNodeList).addByAddr
//@ theory svcby
func exAddByAddr(l *serviceNodeList, addr string, nodes []*ServiceNode) {
	gAsked = l
	gAddr = addr
	gNodes = nodes
	gCalls++
}

//@ contract (*serviceManager).setServiceNode
//@ property C18
//@ theory svcby
//@ panicfree
func ctSetServiceNode(s *serviceManager, name string, addr string, nodes []*ServiceNode, other string) {
	vcRequires(s.serviceList != nil)
	want, ok := s.serviceList[name]
	vcRequires(vcImp(ok, want != nil))
	ol, ook := s.serviceList[other]
	gCalls = 0
	s.setServiceNode(name, addr, nodes)
	now, nok := s.serviceList[name]
	vcEnsures("C18.nodes are added once to the list of their service", vcAnd(gCalls == 1, vcAnd(nok, vcAnd(gAsked == now, gAddr == addr))))
	vcEnsures("C18.an existing list is kept", vcImp(ok, now == want))
	if other != name {
		ol2, ook2 := s.serviceList[other]
		vcEnsures("C18.other services are untouched", vcAnd(ol == ol2, ook == ook2))
	}
}

// Lists of every size: k is an arbitrary node of the list before (gPos follows where it is), d an
// arbitrary distance from the end of the list after. gSteps counts the nodes looked at. gIs names
// the nodes that have the address in question.
type gmapIs map[uint64]bool

var gIs gmapIs
var gPos int
var gSteps int
var gDelAddr string
var gDelAt int
var gAddHit bool

//@ op load micro.serviceNodeList.nodes[]
//@ theory svcany
func hkAnyNode(l *serviceNodeList, n *ServiceNode, i int) {
	vcAssume(n != nil)
	vcAssume(vcIff(gIs[uint64(vcId(n))], n.addr == gDelAddr))
	gSteps++
	gDelAt = i
	gAddHit = vcOr(gAddHit, gIs[uint64(vcId(n))])
}

//@ op store micro.serviceNodeList.nodes
//@ theory svcany
func hkAnyStore(l *serviceNodeList, now []*ServiceNode) {
	gPos = gPos - vcIteInt(gDelAt < gPos, 1, 0)
}

// spListHas: n is one of the first nodes of the list.
func spListHas(l *serviceNodeList, n *ServiceNode) bool {
	return vcOr(spListAt(l, 0, n), vcOr(spListAt(l, 1, n), vcOr(spListAt(l, 2, n), vcOr(spListAt(l, 3, n), vcOr(spListAt(l, 4, n), spListAt(l, 5, n))))))
}

func spListAt(l *serviceNodeList, i int, n *ServiceNode) bool {
	return vcAnd(i < len(l.nodes), l.nodes[i] == n)
}

// Stopping a client changes nothing of the list.
//
//@ extern (*arpc.Client).Stop
//@ theory svc svcany
func exAnyStop(c *arpc.Client) {}

//@ contract (*serviceNodeList).delete
//@ property C18
//@ theory svcany
//@ panicfree
func ctListDeleteAny(l *serviceNodeList, addr string, k int) {
	n := len(l.nodes)
	vcRequires(vcAnd(n <= 1<<20, cap(l.nodes) <= 1<<20))
	vcRequires(vcAnd(0 <= k, k < n))
	kn := l.nodes[k]
	vcRequires(kn != nil)
	hit := gIs[uint64(vcId(kn))]
	vcRequires(vcIff(hit, kn.addr == addr))
	gPos = k
	gSteps = 0
	gDelAddr = addr
	vcHint("size", func() bool { return vcAnd(len(l.nodes) <= n, vcAnd(cap(l.nodes) <= 1<<20, len(l.nodes) >= n-gSteps)) })
	vcHint("steps", func() bool { return vcAnd(0 <= gSteps, gSteps <= n) })
	vcHint("ahead", func() bool { return vcImp(k < n-gSteps, vcAnd(gPos == k, vcAnd(k < len(l.nodes), l.nodes[k] == kn))) })
	vcHint("kept", func() bool {
		return vcImp(!hit, vcAnd(vcImp(k >= n-gSteps, gPos >= n-gSteps), vcAnd(0 <= gPos, vcAnd(gPos < len(l.nodes), l.nodes[gPos] == kn))))
	})
	vcHint("gone", func() bool { return vcImp(vcAnd(hit, k >= n-gSteps), kn.shutdown) })
	l.delete(addr)
	vcEnsures("C18.the other nodes stay", vcImp(!hit, vcOr(spListHas(l, kn), vcAnd(0 <= gPos, vcAnd(gPos < len(l.nodes), l.nodes[gPos] == kn)))))
	vcEnsures("C18.a removed node is shut down", vcImp(hit, kn.shutdown))
}

//@ contract (*serviceNodeList).delete
//@ property C18
//@ theory svcany
//@ panicfree
func ctListDeleteClean(l *serviceNodeList, addr string, d int) {
	n := len(l.nodes)
	vcRequires(vcAnd(n <= 1<<20, cap(l.nodes) <= 1<<20))
	vcRequires(vcAnd(0 <= d, d < n))
	gPos = 0
	gSteps = 0
	gDelAddr = addr
	vcHint("size", func() bool { return vcAnd(len(l.nodes) <= n, vcAnd(cap(l.nodes) <= 1<<20, len(l.nodes) >= n-gSteps)) })
	vcHint("steps", func() bool { return vcAnd(0 <= gSteps, gSteps <= n) })
	vcHint("clean tail", func() bool {
		return vcImp(vcAnd(d < len(l.nodes), len(l.nodes)-1-d >= n-gSteps), !gIs[uint64(vcId(l.nodes[len(l.nodes)-1-d]))])
	})
	l.delete(addr)
	if d < len(l.nodes) {
		last := l.nodes[len(l.nodes)-1-d]
		vcEnsures("C18.no node of the removed address remains", !gIs[uint64(vcId(last))])
	}
}

// addByAddr: k is an arbitrary node known before, j one of the nodes to add.
//
//@ contract (*serviceNodeList).addByAddr
//@ property C18
//@ theory svcany
//@ panicfree
func ctListAddAny(l *serviceNodeList, addr string, nodes []*ServiceNode, k int, j int) {
	n := len(l.nodes)
	vcRequires(vcAnd(n <= 1<<20, vcAnd(cap(l.nodes) <= 1<<20, vcAnd(cap(nodes) <= 1<<20, len(nodes) > 0))))
	vcRequires(vcAnd(0 <= j, j < len(nodes)))
	var kn *ServiceNode
	if vcAnd(0 <= k, k < n) {
		kn = l.nodes[k]
		vcRequires(vcAnd(kn != nil, vcIff(gIs[uint64(vcId(kn))], kn.addr == addr)))
	}
	jn := nodes[j]
	gPos = 0
	gSteps = 0
	gDelAddr = addr
	gAddHit = false
	vcHint("not met", func() bool { return !gAddHit })
	vcHint("steps", func() bool { return vcAnd(0 <= gSteps, gSteps <= n) })
	vcHint("k is still ahead", func() bool { return vcImp(vcAnd(kn != nil, gIs[uint64(vcId(kn))]), gSteps <= k) })
	l.addByAddr(addr, nodes)
	if kn != nil {
		vcEnsures("C18.adding keeps the other nodes", vcAnd(k < len(l.nodes), l.nodes[k] == kn))
		vcEnsures("C18.nodes are added once per address", vcImp(gIs[uint64(vcId(kn))], len(l.nodes) == n))
	}
	vcEnsures("C18.the added nodes are selectable", vcImp(!gAddHit, vcAnd(len(l.nodes) == n+len(nodes), l.nodes[n+j] == jn)))
}
