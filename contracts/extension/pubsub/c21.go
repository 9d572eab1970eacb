package pubsub

import (
	"time"

	"github.com/lesismal/arpc"
)

// C21 for the publish/subscribe extension; see root/c21.go. The operations of package arpc that it
// uses have their own contracts there: they take no lock of this package, leave none held, and may
// panic where a callback of the user does.

//@ extern (*arpc.Client).PushMsg
//@ theory lk
func exLkPushMsg(c *arpc.Client, msg *arpc.Message, d time.Duration, bad bool, err error) error {
	if bad {
		panic("callback")
	}
	return err
}

//@ extern (*arpc.Client).Call
//@ theory lk
func exLkCall(c *arpc.Client, method string, req interface{}, rsp interface{}, d time.Duration, args []interface{}, bad bool, err error) error {
	if bad {
		panic("callback")
	}
	return err
}

//@ extern (*arpc.Context).Write
//@ theory lk
func exLkWrite(c *arpc.Context, v interface{}, bad bool, err error) error {
	if bad {
		panic("callback")
	}
	return err
}

//@ extern (*arpc.Context).Error
//@ theory lk
func exLkError(c *arpc.Context, v interface{}, bad bool, err error) error {
	if bad {
		panic("callback")
	}
	return err
}

//@ extern (*arpc.Context).Bind
//@ theory lk
func exLkBind(c *arpc.Context, v interface{}, bad bool, err error) error {
	if bad {
		panic("callback")
	}
	return err
}

//@ extern (*arpc.Server).NewMessage
//@ theory lk
func exLkSrvNewMessage(s *arpc.Server, cmd byte, method string, v interface{}, args []interface{}) *arpc.Message {
	return &arpc.Message{}
}

//@ extern (*arpc.Message).Release
//@ theory lk
func exLkRelease(m *arpc.Message, bad bool) {
	if bad {
		panic("free handler")
	}
}

//@ contract (*TopicAgent).Add
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkAdd(t *TopicAgent, c *arpc.Client) {
	t.Add(c)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*TopicAgent).Delete
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkDel(t *TopicAgent, c *arpc.Client) {
	t.Delete(c)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*TopicAgent).Publish
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkPub(t *TopicAgent, s *Server, from *arpc.Client, topic *Topic) {
	t.Publish(s, from, topic)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*TopicAgent).PublishToOne
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkPub1(t *TopicAgent, s *Server, from *arpc.Client, topic *Topic) {
	t.PublishToOne(s, from, topic)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).onAuthenticate
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkOnAuth(s *Server, ctx *arpc.Context) {
	s.onAuthenticate(ctx)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).onSubscribe
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkOnSub(s *Server, ctx *arpc.Context) {
	s.onSubscribe(ctx)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).onUnsubscribe
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkOnUnsub(s *Server, ctx *arpc.Context) {
	s.onUnsubscribe(ctx)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).onPublish
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkOnPub(s *Server, ctx *arpc.Context) {
	s.onPublish(ctx)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).onPublishToOne
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkOnPub1(s *Server, ctx *arpc.Context) {
	s.onPublishToOne(ctx)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).Publish
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkSrvPub(s *Server, name string, v interface{}) {
	s.Publish(name, v)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).PublishToOne
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkSrvPub1(s *Server, name string, v interface{}) {
	s.PublishToOne(name, v)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).deleteClient
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkDelClient(s *Server, c *arpc.Client) {
	s.deleteClient(c)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).Subscribe
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCliSub(c *Client, name string, h TopicHandler, d time.Duration) {
	c.Subscribe(name, h, d)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).Unsubscribe
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCliUnsub(c *Client, name string, d time.Duration) {
	c.Unsubscribe(name, d)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).Publish
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCliPub(c *Client, name string, v interface{}, d time.Duration) {
	c.Publish(name, v, d)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).PublishToOne
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCliPub1(c *Client, name string, v interface{}, d time.Duration) {
	c.PublishToOne(name, v, d)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).onPublish
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCliOnPub(c *Client, ctx *arpc.Context) {
	c.onPublish(ctx)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).initTopics
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCliInit(c *Client) {
	c.initTopics()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}
