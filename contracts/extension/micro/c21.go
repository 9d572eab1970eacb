package micro

import (
	"net"

	"github.com/lesismal/arpc"
)

// C21 for the service manager; see root/c21.go.

// Stop has its own contract there: it takes no lock of this package and may panic where the
// connection of the user does.
//
//@ extern (*arpc.Client).Stop
//@ theory lk
func exLkStop(c *arpc.Client, bad bool) {
	if bad {
		panic("connection")
	}
}

//@ extern arpc.NewClient
//@ theory lk
func exLkNewClient(dialer func() (net.Conn, error), args []interface{}, c *arpc.Client, err error, bad bool) (*arpc.Client, error) {
	if bad {
		panic("dialer")
	}
	return c, err
}

//@ contract (*serviceNodeList).addByAddr
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkAddByAddr(l *serviceNodeList, addr string, nodes []*ServiceNode) {
	l.addByAddr(addr, nodes)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*serviceNodeList).update
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkUpdate(l *serviceNodeList, node *ServiceNode) {
	l.update(node)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*serviceNodeList).delete
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkDelete(l *serviceNodeList, addr string) {
	l.delete(addr)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*serviceNodeList).next
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkNext(l *serviceNodeList) {
	l.next()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*serviceManager).setServiceNode
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkSetNode(s *serviceManager, name string, addr string, nodes []*ServiceNode) {
	s.setServiceNode(name, addr, nodes)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*serviceManager).updateServiceNode
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkUpdateNode(s *serviceManager, name string, node *ServiceNode) {
	s.updateServiceNode(name, node)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*serviceManager).ClientBy
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkClientBy(s *serviceManager, name string) {
	s.ClientBy(name)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*serviceManager).DeleteServiceNodes
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkDeleteNodes(s *serviceManager, path string) {
	s.DeleteServiceNodes(path)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}
