package pubsub

import (
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
)

// C16, the client's side.

//@ guarded pubsub.Client.psmux topicHandlerMap

// ghost: the request made, and one arbitrary topic
var gReqN int
var gReqMethod string
var gReqOK bool // it carried the encoding of the topic asked for
var gReqTopic *Topic
var gReqErr error
var gReqData []byte
var gCTop string
var gCAsk string
var gCKeptAtReq bool
var gCHas bool
var gCHasSet bool

//@ extern (*arpc.Client).Call
//@ theory pscli
func exCliCall(c *arpc.Client, method string, req interface{}, rsp interface{}, d time.Duration, args []interface{}, err error) error {
	b, ok := req.([]byte)
	gReqN++
	gReqMethod = method
	gReqOK = vcAnd(ok, vcAnd(gReqTopic != nil, vcAnd(gReqTopic.Name == gCAsk, vcAnd(vcSameArray(b, gReqTopic.raw), len(b) == len(gReqTopic.raw)))))
	pw, ok2 := req.(string)
	gReqPw = vcAnd(ok2, pw == gCliPw)
	vcAssert("C16.no request is made under a lock", vcLocks() == 0)
	gCKeptAtReq = gCHasSet
	gReqErr = err
	gReqD = d
	return err
}

var gReqName string
var gReqPw bool
var gCliPw string
var gReqD time.Duration

//@ extern util.ValueToBytes
//@ theory pscli
func exCliValue(c codec.Codec, v interface{}, b []byte) []byte {
	gReqData = b
	return b
}

//@ extern (*pubsub.Topic).toBytes
//@ theory pscli
func exCliEncode(tp *Topic, raw []byte, err error) ([]byte, error) {
	vcAssume(err == nil)
	vcAssume(vcAnd(len(raw) >= 10, len(raw) <= 1<<40))
	tp.raw = raw
	gReqTopic = tp
	gReqName = tp.Name
	gReqHasData = vcAnd(vcSameArray(tp.Data, gReqData), len(tp.Data) == len(gReqData))
	return raw, nil
}

var gReqHasData bool

//@ op mapset pubsub.Client.topicHandlerMap
//@ theory pscli
func hkCliSet(c *Client, k string, h TopicHandler) {
	vcAssert("C16.handlers change under the lock", vcHeldW(&c.psmux))
	vcAssert("C16.the handler given is kept for the topic given", vcAnd(k == gCAsk, vcId(h) == gCHandler))
	gCHasSet = true
}

//@ op mapdelete pubsub.Client.topicHandlerMap
//@ theory pscli
func hkCliDel(c *Client, k string) {
	vcAssert("C16.handlers change under the lock", vcHeldW(&c.psmux))
	vcAssert("C16.only the handler of the topic given is dropped", k == gCAsk)
	gCHasSet = false
}

var gCHandler int

func spCliReset(c *Client, name string) {
	gReqN = 0
	gReqTopic = nil
	gReqOK = false
	gReqPw = false
	gCAsk = name
	gCliPw = c.Password
	gCHasSet = vcChoice()
}

func spCliPre(c *Client) bool {
	return vcAnd(c.Client != nil, vcAnd(c.Client.Conn != nil, vcAnd(c.Client.Handler != nil, c.topicHandlerMap != nil)))
}

func spNameOK(name string) bool { return vcAnd(len(name) > 0, len(name) <= MaxTopicNameLen) }

//@ contract (*Client).Authenticate
//@ property C16
//@ theory pscli
func ctCliAuth(c *Client) error {
	vcRequires(spCliPre(c))
	spCliReset(c, "")
	err := c.Authenticate()
	vcEnsures("C16.a client authenticates with its password", vcAnd(gReqN == 1, vcAnd(gReqMethod == routeAuthenticate, gReqPw)))
	vcEnsures("C16.the outcome of a request is reported", err == gReqErr)
	return err
}

//@ contract (*Client).Subscribe
//@ property C16
//@ theory pscli
//@ opt locks
func ctCliSubscribe(c *Client, topicName string, h TopicHandler, timeout time.Duration) error {
	vcRequires(spCliPre(c))
	spCliReset(c, topicName)
	gCHandler = vcId(h)
	err := c.Subscribe(topicName, h, timeout)
	vcEnsures("C16.a valid subscription is requested, once", gReqN == vcIteInt(spNameOK(topicName), 1, 0))
	vcEnsures("C16.a subscription names its topic", vcImp(gReqN > 0, vcAnd(gReqMethod == routeSubscribe, vcAnd(gReqOK, gReqD == timeout))))
	vcEnsures("C16.a handler is in place before its topic is subscribed", vcImp(gReqN > 0, gCKeptAtReq))
	vcEnsures("C16.a subscribed topic keeps its handler", vcImp(err == nil, gCHasSet))
	vcEnsures("C16.the outcome of a request is reported", vcImp(gReqN > 0, err == gReqErr))
	vcEnsures("C16.an invalid topic is refused", vcImp(gReqN == 0, err != nil))
	return err
}

//@ contract (*Client).Unsubscribe
//@ property C16
//@ theory pscli
//@ opt locks
func ctCliUnsubscribe(c *Client, topicName string, timeout time.Duration) error {
	vcRequires(spCliPre(c))
	spCliReset(c, topicName)
	had := gCHasSet
	err := c.Unsubscribe(topicName, timeout)
	vcEnsures("C16.a valid unsubscription is requested, once", gReqN == vcIteInt(spNameOK(topicName), 1, 0))
	vcEnsures("C16.an unsubscription names its topic", vcImp(gReqN > 0, vcAnd(gReqMethod == routeUnsubscribe, gReqOK)))
	vcEnsures("C16.an unsubscribed topic has no handler", vcImp(err == nil, !gCHasSet))
	vcEnsures("C16.a topic that stays subscribed keeps its handler", vcImp(err != nil, gCHasSet == had))
	vcEnsures("C16.the outcome of a request is reported", vcImp(gReqN > 0, err == gReqErr))
	vcEnsures("C16.an invalid topic is refused", vcImp(gReqN == 0, err != nil))
	return err
}

//@ contract (*Client).Publish
//@ property C16
//@ theory pscli
func ctCliPublish(c *Client, topicName string, v interface{}, timeout time.Duration) error {
	vcRequires(spCliPre(c))
	spCliReset(c, topicName)
	err := c.Publish(topicName, v, timeout)
	vcEnsures("C16.a valid publish is requested, once", gReqN == vcIteInt(spNameOK(topicName), 1, 0))
	vcEnsures("C16.a publish carries its topic and value", vcImp(gReqN > 0, vcAnd(gReqMethod == routePublish, vcAnd(gReqOK, gReqHasData))))
	vcEnsures("C16.the outcome of a request is reported", vcImp(gReqN > 0, err == gReqErr))
	vcEnsures("C16.an invalid topic is refused", vcImp(gReqN == 0, err != nil))
	return err
}

//@ contract (*Client).PublishToOne
//@ property C16
//@ theory pscli
func ctCliPublishToOne(c *Client, topicName string, v interface{}, timeout time.Duration) error {
	vcRequires(spCliPre(c))
	spCliReset(c, topicName)
	err := c.PublishToOne(topicName, v, timeout)
	vcEnsures("C16.a valid publish is requested, once", gReqN == vcIteInt(spNameOK(topicName), 1, 0))
	vcEnsures("C16.a publish carries its topic and value", vcImp(gReqN > 0, vcAnd(gReqMethod == routePublishToOne, vcAnd(gReqOK, gReqHasData))))
	vcEnsures("C16.the outcome of a request is reported", vcImp(gReqN > 0, err == gReqErr))
	vcEnsures("C16.an invalid topic is refused", vcImp(gReqN == 0, err != nil))
	return err
}

// ---- receiving ----

var gInName string
var gInOK bool
var gInH int
var gInHas bool
var gInN int
var gInTopic *Topic

//@ extern (*arpc.Context).Body
//@ theory pscli
func exCliBody(ctx *arpc.Context, b []byte) []byte { return b }

//@ extern (*arpc.Message).IsError
//@ theory pscli
func exCliIsErr(m *arpc.Message, b bool) bool {
	gInErr = b
	return b
}

var gInErr bool

//@ extern (*arpc.Message).Error
//@ theory pscli
func exCliMsgErr(m *arpc.Message, err error) error { return err }

//@ extern (*pubsub.Topic).fromBytes
//@ theory pscli
func exCliDecode(tp *Topic, data []byte, name string, err error) error {
	if err == nil {
		tp.Name = name
		gInName = name
		gInTopic = tp
	}
	gInOK = err == nil
	return err
}

//@ op mapget pubsub.Client.topicHandlerMap
//@ theory pscli
func hkCliGet(c *Client, k string, h TopicHandler, ok bool) {
	vcAssert("C16.handlers are read under the lock", vcHeld(&c.psmux))
	if gInOK {
		vcAssert("C16.a received publish is for the handler of its topic", k == gInName)
		gInHas = ok
		gInH = vcId(h)
	}
}


//@ op call pubsub.Client.onPublishHandler
//@ theory pscli
func hkCliPubAll(c *Client, f TopicHandler, tp *Topic) {
	vcAssert("C16.a received publish is delivered as it was decoded", vcAnd(gInOK, tp == gInTopic))
	vcAssert("C16.handlers run without a lock", vcLocks() == 0)
	gInN++
}

//@ op call pubsub.Client.topicHandlerMap[]
//@ theory pscli
func hkCliPubOne(c *Client, f TopicHandler, tp *Topic) {
	vcAssert("C16.a received publish is delivered as it was decoded", vcAnd(gInOK, tp == gInTopic))
	vcAssert("C16.a received publish is delivered to the handler of its topic", vcAnd(gInHas, vcId(f) == gInH))
	vcAssert("C16.handlers run without a lock", vcLocks() == 0)
	gInN++
}

//@ contract (*Client).onPublish
//@ property C16
//@ theory pscli
func ctCliOnPublish(c *Client, ctx *arpc.Context) {
	vcRequires(spCliPre(c))
	vcRequires(vcAnd(ctx != nil, vcAnd(ctx.Message != nil, vcAnd(ctx.Client != nil, ctx.Client.Conn != nil))))
	spCliReset(c, "")
	gInOK = false
	gInN = 0
	gInHas = false
	gInErr = false
	all := c.onPublishHandler != nil
	c.onPublish(ctx)
	vcEnsures("C16.a received publish is delivered once to the handler of all topics, if there is one", vcImp(vcAnd(gInOK, all), gInN == 1))
	vcEnsures("C16.a received publish is delivered once to the handler of its topic, if there is one", vcImp(vcAnd(gInOK, !all), gInN == vcIteInt(gInHas, 1, 0)))
	vcEnsures("C16.what was not received well is not delivered", vcImp(!gInOK, gInN == 0))
}

// ---- reconnecting ----

// ghost: whether the topic at hand is the arbitrary one
var gIterName string
var gIterCalls int // requests made for the topic at hand
var gResubRaw []byte

//@ op lock pubsub.Client.psmux
//@ theory resub
func hkCliLock(c *Client) {
	_, ok := c.topicHandlerMap[gCTop]
	gCHas = ok
}

//@ op rangenext pubsub.Client.topicHandlerMap
//@ theory resub
func hkCliNext(c *Client, k string, h TopicHandler) {
	vcAssume(spNameOK(k))
	vcAssert("C16.after reconnecting a client subscribes again to every topic", gIterCalls >= 1)
	gIterName = k
	gIterCalls = 0
}

//@ op unlock pubsub.Client.psmux
//@ theory resub
func hkCliUnlock(c *Client) {
	vcAssert("C16.after reconnecting no topic is left out", vcImp(gCHas, vcVisited(gCTop)))
}

//@ extern pubsub.newTopic
//@ theory resub
func exResubTopic(name string, data []byte, tp *Topic, err error) (*Topic, error) {
	vcAssume(tp != nil)
	// the names kept are valid (see ctCliSubscribe)
	vcAssume(err == nil)
	vcAssert("C16.subscribing again is for the topic at hand", name == gIterName)
	return tp, nil
}

//@ extern (*pubsub.Topic).toBytes
//@ theory resub
func exResubEncode(tp *Topic, raw []byte) ([]byte, error) {
	gResubRaw = raw
	return raw, nil
}

//@ extern util.ValueToBytes
//@ theory resub
func exResubValue(c codec.Codec, v interface{}, b []byte) []byte { return b }

//@ extern (*arpc.Client).Call
//@ theory resub
func exResubCall(c *arpc.Client, method string, req interface{}, rsp interface{}, d time.Duration, args []interface{}, err error) error {
	b, ok := req.([]byte)
	vcAssert("C16.subscribing again names its topic", vcAnd(method == routeSubscribe, vcAnd(ok, vcAnd(vcSameArray(b, gResubRaw), len(b) == len(gResubRaw)))))
	vcAssert("C16.no request is made under a lock", vcLocks() == 0)
	vcAssume(gIterCalls < 1<<40)
	gIterCalls++
	return err
}

//@ extern time.Sleep
//@ theory resub
func exCliSleep(d time.Duration) {}

//@ contract (*Client).initTopics
//@ property C16
//@ theory resub
func ctInitTopics(c *Client, n string) {
	vcRequires(spCliPre(c))
	vcRequires(spNameOK(n))
	gCTop = n
	gIterCalls = 1
	vcHint("done", func() bool { return gIterCalls >= 1 })
	c.initTopics()
	vcEnsures("C16.after reconnecting a client subscribes again to every topic", gIterCalls >= 1)
}

// ---- wiring ----

var gCW1, gCW2, gCW3, gCWAuth int
var gCWErr error

//@ extern arpc.NewClient
//@ theory wirecli
func exWireNew(d arpc.DialerFunc, args []interface{}, c *arpc.Client, h arpc.Handler, err error) (*arpc.Client, error) {
	if err != nil {
		return nil, err
	}
	vcAssume(h != nil)
	return &arpc.Client{Handler: h}, nil
}

//@ extern (arpc.Handler).SetLogTag
//@ theory wirecli
func exWireCliTag(h arpc.Handler, t string) {}

//@ extern (arpc.Handler).Clone
//@ theory wirecli
func exWireCliClone(h arpc.Handler, o arpc.Handler) arpc.Handler {
	vcAssume(o != nil)
	return o
}

//@ extern (arpc.Handler).Handle
//@ theory wirecli
func exWireCliHandle(h arpc.Handler, m string, f arpc.HandlerFunc, args []interface{}) {
	gWired = 0
	f(nil)
	vcAssert("C16.received publishes are handled", vcAnd(m == routePublish, gWired == 7))
	gCW1++
}

//@ extern (arpc.Handler).HandleConnected
//@ theory wirecli
func exWireCliConn(h arpc.Handler, f func(*arpc.Client)) {
	gCWAuth = 0
	gWired = 0
	f(nil)
	vcAssert("C16.a client that reconnected authenticates again", gCWAuth == 1)
	vcAssert("C16.a client that reconnected subscribes again once it is admitted", vcImp(gCWErr == nil, gWired == 8))
	gCW2++
}

//@ extern (*pubsub.Client).Authenticate
//@ theory wirecli
func exWireCliAuth(c *Client, err error) error {
	vcAssert("C16.a client authenticates before it subscribes again", gWired == 0)
	gCWAuth++
	gCWErr = err
	return err
}

//@ extern (*pubsub.Client).onPublish
//@ theory wirecli
func exWireCliPub(c *Client, ctx *arpc.Context) { gWired = 7 }

//@ extern (*pubsub.Client).initTopics
//@ theory wirecli
func exWireCliInit(c *Client) { gWired = 8 }

// What the client holds by the time it reconnects is arbitrary.
//
//@ contract NewClient
//@ property C16
//@ theory wirecli
//@ volatile pubsub.Client.onPublishHandler pubsub.Client.Password arpc.Client.running arpc.Client.reconnecting arpc.Client.values arpc.Client.UserData
func ctPsNewClient(dialer func() (net.Conn, error), h arpc.Handler, has bool) (*Client, error) {
	gCW1 = 0
	gCW2 = 0
	var c *Client
	var err error
	if has {
		c, err = NewClient(dialer, h)
	} else {
		c, err = NewClient(dialer)
	}
	vcEnsures("C16.a new client handles publishes and resubscribes", vcImp(err == nil, vcAnd(c != nil, vcAnd(gCW1 >= 1, vcAnd(gCW2 >= 1, c.topicHandlerMap != nil)))))
	return c, err
}
