package pubsub

import (
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/util"
)

// C16: only authenticated clients use pub/sub, and subscriptions match what was asked.

//@ guarded pubsub.clientTopics.mux closed topicAgents
//@ guarded pubsub.TopicAgent.mux clients
//@ guarded pubsub.Server.psmux topics

// ghost: the requesting connection, whether it was admitted, and one arbitrary topic
var gCli *arpc.Client
var gAuthed bool
var gCts *clientTopics
var gGetN int
var gGetHeld bool // looked up under the server's lock since it was taken
var gSetN int
var gReplied int // successful replies
var gRefused int // error replies
var gPw string
var gPwOK bool
var gTopN string
var gTopAgent *TopicAgent
var gMember bool // the connection is among the topic's receivers
var gAskName string
var gAskOK bool
var gAddN, gDelN int
var gPubN int

func spPsReset(s *Server, ctx *arpc.Context) {
	gCli = ctx.Client
	spPsReset0()
}

func spPsReset0() {
	gGetN = 0
	gGetHeld = false
	gSetN = 0
	gReplied = 0
	gRefused = 0
	gPwOK = false
	gAskOK = false
	gAddN = 0
	gDelN = 0
	gPubN = 0
}

func spPsPre(s *Server, ctx *arpc.Context, n string) bool {
	x := vcAnd(ctx != nil, vcAnd(s.Server != nil, s.Server.Handler != nil))
	x = vcAnd(x, vcAnd(ctx.Client != nil, vcAnd(ctx.Client.Conn != nil, ctx.Message != nil)))
	x = vcAnd(x, vcAnd(gCts != nil, vcAnd(gCts.topicAgents != nil, gTopAgent != nil)))
	return vcAnd(x, s.topics != nil)
}

// A connection is admitted for good.
//
//@ extern (*arpc.Client).Get
//@ theory ps
func exPsGet(c *arpc.Client, key interface{}, ok bool) (interface{}, bool) {
	ks, isStr := key.(string)
	vcAssert("C16.admission is looked up for the requesting connection", vcAnd(c == gCli, vcAnd(isStr, ks == userTopicKey)))
	gAuthed = vcOr(gAuthed, ok)
	gGetN++
	gGetHeld = vcLocks() > 0
	if gAuthed {
		return gCts, true
	}
	return nil, false
}

//@ extern (*arpc.Client).Set
//@ theory ps
func exPsSet(c *arpc.Client, key interface{}, v interface{}) {
	ks, isStr := key.(string)
	vcAssert("C16.the connection that asked is admitted", vcAnd(c == gCli, vcAnd(isStr, ks == userTopicKey)))
	vcAssert("C16.only a connection that presented the password is admitted", gPwOK)
	vcAssert("C16.re-authenticating loses no subscription", vcAnd(!gAuthed, vcAnd(gGetN > 0, gGetHeld)))
	cts, isT := v.(*clientTopics)
	vcAssert("C16.an admitted connection can subscribe", vcAnd(isT, vcAnd(cts != nil, vcAnd(!cts.closed, cts.topicAgents != nil))))
	gAuthed = true
	gSetN++
}

//@ op unlock pubsub.Server.psmux
//@ theory ps
func hkPsUnlock(s *Server) { gGetHeld = false }

//@ extern (*arpc.Context).Bind
//@ theory ps
func exPsBind(ctx *arpc.Context, v interface{}, pw string, err error) error {
	if err == nil {
		p, ok := v.(*string)
		vcAssert("C16.the password is read", ok)
		*p = pw
		gPw = pw
		gPwOK = pw == gSrvPw
	}
	return err
}

var gSrvPw string

//@ extern (*arpc.Context).Write
//@ theory ps
func exPsWrite(ctx *arpc.Context, v interface{}, err error) error {
	gReplied++
	vcAssert("C16.no reply is sent under a lock", vcLocks() == 0)
	return err
}

//@ extern (*arpc.Context).Error
//@ theory ps
func exPsError(ctx *arpc.Context, v interface{}, err error) error {
	gRefused++
	return err
}

//@ contract (*Server).onAuthenticate
//@ property C16
//@ theory ps
func ctAuthenticate(s *Server, ctx *arpc.Context, n string) {
	vcRequires(spPsPre(s, ctx, n))
	spPsReset(s, ctx)
	gSrvPw = s.Password
	gAuthed = vcChoice()
	was := gAuthed
	s.onAuthenticate(ctx)
	vcEnsures("C16.a wrong password is refused and admits nobody", vcImp(!gPwOK, vcAnd(gRefused == 1, vcAnd(gReplied == 0, gSetN == 0))))
	vcEnsures("C16.the right password admits the connection", vcImp(gPwOK, vcAnd(gAuthed, vcAnd(gReplied == 1, gRefused == 0))))
	vcEnsures("C16.re-authenticating keeps what was admitted", vcImp(was, gSetN == 0))
	vcEnsures("C16.no lock stays held", vcLocks() == 0)
}

// ---- requests ----

//@ extern (*arpc.Context).Body
//@ theory ps
func exPsBody(ctx *arpc.Context, b []byte) []byte { return b }

//@ extern (*pubsub.Topic).fromBytes
//@ theory ps
func exPsTopic(tp *Topic, data []byte, name string, err error) error {
	if err == nil {
		tp.Name = name
		gAskName = name
		gAskOK = len(name) > 0
	}
	return err
}

//@ extern (*pubsub.Server).getOrMakeTopic
//@ theory ps
func exPsAgent(s *Server, topic string, t *TopicAgent) *TopicAgent {
	vcAssume(t != nil)
	vcAssume(vcIff(t == gTopAgent, topic == gTopN))
	vcAssume(t.Name == topic)
	return t
}

//@ op lock pubsub.clientTopics.mux
//@ theory ps
func hkPsLock(ct *clientTopics) {
	vcAssert("C16.the subscriptions of the requesting connection are used", vcAnd(ct == gCts, gAuthed))
	t, has := ct.topicAgents[gTopN]
	vcAssume(vcImp(has, t == gTopAgent))
	m := vcAnd(has, !ct.closed)
	gMember = m
	gSubClosed = ct.closed
}

var gSubClosed bool
var gSubRec bool

//@ op unlock pubsub.clientTopics.mux
//@ theory ps
func hkPsSubUnlock(ct *clientTopics) {
	t, has := ct.topicAgents[gTopN]
	vcAssert("C16.what is recorded for a connection and the receivers of a topic agree", vcIff(gMember, vcAnd(has, !ct.closed)))
	vcAssert("C16.the recorded topic is the one asked for", vcImp(has, t == gTopAgent))
	vcAssert("C16.a disconnected connection stays disconnected", vcImp(gSubClosed, ct.closed))
	gSubClosed = ct.closed
}

//@ op mapget pubsub.clientTopics.topicAgents
//@ theory ps
func hkPsTopGet(ct *clientTopics, k string, t *TopicAgent, ok bool) {
	vcAssume(vcImp(ok, t != nil))
	// each topic has one agent
	vcAssume(vcImp(ok, vcIff(t == gTopAgent, k == gTopN)))
}

//@ extern (*pubsub.TopicAgent).Add
//@ theory ps
func exPsAdd(t *TopicAgent, c *arpc.Client) {
	vcAssert("C16.only the requesting connection is subscribed, after it was admitted", vcAnd(c == gCli, gAuthed))
	vcAssert("C16.a topic gains receivers only under the lock of the connection", vcHeldW(&gCts.mux))
	gMember = vcOr(gMember, t == gTopAgent)
	gAddN++
}

//@ extern (*pubsub.TopicAgent).Delete
//@ theory ps
func exPsDelete(t *TopicAgent, c *arpc.Client) {
	vcAssert("C16.only the requesting connection is unsubscribed", c == gCli)
	vcAssert("C16.a topic loses receivers only under the lock of the connection", vcHeldW(&gCts.mux))
	gMember = vcAnd(gMember, t != gTopAgent)
	gDelN++
}

//@ contract (*Server).onSubscribe
//@ property C16
//@ theory ps
func ctSubscribe(s *Server, ctx *arpc.Context, n string) {
	vcRequires(spPsPre(s, ctx, n))
	spPsReset(s, ctx)
	gTopN = n
	gAuthed = vcChoice()
	gSubClosed = false
	s.onSubscribe(ctx)
	vcEnsures("C16.a connection that was not admitted subscribes to nothing", vcImp(!gAuthed, vcAnd(gAddN == 0, vcAnd(gDelN == 0, gReplied == 0))))
	vcEnsures("C16.after a successful subscribe the connection is among the receivers", vcImp(vcAnd(gReplied == 1, gAskName == n), vcOr(gMember, gSubClosed)))
	vcEnsures("C16.only a well-formed request succeeds", vcImp(gReplied > 0, vcAnd(gReplied == 1, vcAnd(gAskOK, gRefused == 0))))
	vcEnsures("C16.subscribing removes nobody", gDelN == 0)
	vcEnsures("C16.no lock stays held", vcLocks() == 0)
}

//@ contract (*Server).onUnsubscribe
//@ property C16
//@ theory ps
func ctUnsubscribe(s *Server, ctx *arpc.Context, n string) {
	vcRequires(spPsPre(s, ctx, n))
	spPsReset(s, ctx)
	gTopN = n
	gAuthed = vcChoice()
	gSubClosed = false
	s.onUnsubscribe(ctx)
	vcEnsures("C16.a connection that was not admitted changes no subscription", vcImp(!gAuthed, vcAnd(gAddN == 0, vcAnd(gDelN == 0, gReplied == 0))))
	vcEnsures("C16.after unsubscribing the connection is not among the receivers", vcImp(vcAnd(gReplied == 1, gAskName == n), !gMember))
	vcEnsures("C16.only a well-formed request succeeds", vcImp(gReplied > 0, vcAnd(gReplied == 1, vcAnd(gAskOK, gRefused == 0))))
	vcEnsures("C16.unsubscribing adds nobody", gAddN == 0)
	vcEnsures("C16.no lock stays held", vcLocks() == 0)
}

//@ contract (*Server).deleteClient
//@ property C16
//@ theory ps
func ctPsDeleteClient(s *Server, c *arpc.Client, n string) {
	vcRequires(vcAnd(s.Server != nil, vcAnd(s.Server.Handler != nil, vcAnd(c.Conn != nil, vcAnd(gCts != nil, vcAnd(gCts.topicAgents != nil, gTopAgent != nil))))))
	spPsReset0()
	gCli = c
	gTopN = n
	gAuthed = vcChoice()
	gMember = false
	gSubClosed = false
	vcHint("left", func() bool { return vcImp(vcVisited(n), !gMember) })
	vcHint("left2", func() bool { return vcImp(vcAnd(gMember, !vcVisited(n)), gPsHas(n)) })
	s.deleteClient(c)
	vcEnsures("C16.after a disconnect the connection is not among the receivers", !gMember)
	vcEnsures("C16.a disconnected connection cannot subscribe again", vcImp(gAuthed, gCts.closed))
	vcEnsures("C16.no lock stays held", vcLocks() == 0)
}

func gPsHas(n string) bool {
	_, ok := gCts.topicAgents[n]
	return ok
}

//@ op rangenext pubsub.clientTopics.topicAgents
//@ theory ps
func hkPsNext(ct *clientTopics, k string, t *TopicAgent) {
	vcAssume(t != nil)
	vcAssume(vcIff(t == gTopAgent, k == gTopN))
}

// ---- topics ----

// ghost: one arbitrary receiver
var gRcv *arpc.Client
var gRcvIn bool
var gRcvPushed int

//@ op lock pubsub.TopicAgent.mux
//@ theory topic
func hkTopLock(t *TopicAgent) {
	_, ok := t.clients[gRcv]
	gRcvIn = ok
}

//@ op unlock pubsub.TopicAgent.mux
//@ theory topic
func hkTopUnlock(t *TopicAgent) {
	_, ok := t.clients[gRcv]
	gRcvAfter = ok
}

var gRcvAfter bool

//@ op mapset pubsub.TopicAgent.clients
//@ theory topic
func hkTopSet(t *TopicAgent, c *arpc.Client, e util.Empty) {
	vcAssert("C16.receivers change under the topic's lock", vcHeldW(&t.mux))
}

//@ op mapdelete pubsub.TopicAgent.clients
//@ theory topic
func hkTopDel(t *TopicAgent, c *arpc.Client) {
	vcAssert("C16.receivers change under the topic's lock", vcHeldW(&t.mux))
}

//@ contract (*TopicAgent).Add
//@ property C16
//@ theory topic
//@ opt locks
func ctTopicAdd(t *TopicAgent, c *arpc.Client, other *arpc.Client) {
	vcRequires(t.clients != nil)
	gRcv = other
	gRcvIn = false
	t.Add(c)
	vcEnsures("C16.adding a receiver adds it and changes no other", gRcvAfter == vcOr(gRcvIn, other == c))
}

//@ contract (*TopicAgent).Delete
//@ property C16
//@ theory topic
//@ opt locks
func ctTopicDelete(t *TopicAgent, c *arpc.Client, other *arpc.Client) {
	vcRequires(t.clients != nil)
	gRcv = other
	gRcvIn = false
	t.Delete(c)
	vcEnsures("C16.deleting a receiver deletes it and changes no other", gRcvAfter == vcAnd(gRcvIn, other != c))
}

// ghost: the topic looked up; once it has an agent it keeps it
var gAgName string
var gAgSeen *TopicAgent
var gAgHas bool

//@ op lock pubsub.Server.psmux
//@ theory agents
func hkAgLock(s *Server) {
	t, ok := s.topics[gAgName]
	vcAssume(vcImp(gAgHas, vcAnd(ok, t == gAgSeen)))
	vcAssume(vcImp(ok, vcAnd(t != nil, vcAnd(t.Name == gAgName, t.clients != nil))))
	gAgHas = ok
	if ok {
		gAgSeen = t
	}
}

//@ op unlock pubsub.Server.psmux
//@ theory agents
func hkAgUnlock(s *Server) {
	t, ok := s.topics[gAgName]
	vcAssert("C16.a topic keeps its receivers", vcImp(gAgHas, vcAnd(ok, t == gAgSeen)))
	gAgHas = ok
	if ok {
		gAgSeen = t
	}
}

//@ op mapset pubsub.Server.topics
//@ theory agents
func hkAgSet(s *Server, k string, t *TopicAgent) {
	vcAssert("C16.topics are added under the server's lock", vcHeldW(&s.psmux))
	vcAssert("C16.only the topic asked for is added", k == gAgAsk)
}

var gAgAsk string

//@ contract (*Server).getOrMakeTopic
//@ property C16
//@ theory agents
//@ opt locks
func ctGetOrMake(s *Server, topic string, n string) *TopicAgent {
	vcRequires(s.topics != nil)
	gAgName = n
	gAgAsk = topic
	gAgHas = false
	t := s.getOrMakeTopic(topic)
	vcEnsures("C16.each topic has one set of receivers", vcImp(topic == n, vcAnd(gAgHas, t == gAgSeen)))
	vcEnsures("C16.a topic is usable", vcImp(topic == n, vcAnd(t != nil, vcAnd(t.Name == topic, t.clients != nil))))
	return t
}

// ---- publishing ----

var gPm *arpc.Message
var gPMade int
var gPOwn int
var gPTopic *Topic
var gPOKs int
var gPTried int

//@ extern (*arpc.Server).NewMessage
//@ theory publish
func exPubNew(s *arpc.Server, cmd byte, method string, v interface{}, args []interface{}, m *arpc.Message) *arpc.Message {
	vcAssume(m != nil)
	b, ok := v.([]byte)
	vcAssert("C16.a publish pushes the topic as it was encoded", vcAnd(cmd == arpc.CmdNotify, vcAnd(method == routePublish, vcAnd(ok, vcAnd(len(b) == len(gPTopic.raw), vcSameArray(b, gPTopic.raw))))))
	vcAssert("C16.a publish makes one message", gPMade == 0)
	gPMade++
	gPm = m
	gPOwn = 1
	return m
}

//@ extern (*arpc.Message).Retain
//@ theory publish
func exPubRetain(m *arpc.Message, n int32) int32 {
	vcAssert("C08.a reference is taken only by a holder of one", vcAnd(m == gPm, gPOwn >= 1))
	gPOwn++
	return n
}

//@ extern (*arpc.Message).Release
//@ theory publish
func exPubRelease(m *arpc.Message, n int32) int32 {
	vcAssert("C08.a publish gives up no reference it does not hold", vcAnd(m == gPm, gPOwn >= 1))
	gPOwn--
	return n
}

//@ extern (*arpc.Client).PushMsg
//@ theory publish
func exPubPush(c *arpc.Client, m *arpc.Message, d time.Duration, err error) error {
	vcAssert("C08.each receiver is handed a reference of its own", vcAnd(m == gPm, gPOwn >= 2))
	vcAssert("C16.a publish does not wait for a receiver", d == arpc.TimeZero)
	vcAssert("C16.a publish to one stops at the first that took it", vcImp(gPOne, gPOKs == 0))
	gPOwn--
	gRcvPushed = vcIteInt(c == gRcv, gRcvPushed+1, gRcvPushed)
	gPOKs = vcIteInt(err == nil, gPOKs+1, gPOKs)
	gPTried++
	return err
}

var gPOne bool

//@ op rangenext pubsub.TopicAgent.clients
//@ theory publish
func hkPubNext(t *TopicAgent, c *arpc.Client, e util.Empty) {
	vcAssume(vcAnd(c != nil, c.Conn != nil))
	vcAssert("C16.receivers are walked under the topic's lock", vcHeld(&t.mux))
}

//@ op lock pubsub.TopicAgent.mux
//@ theory publish
func hkPubLock(t *TopicAgent) {
	_, ok := t.clients[gRcv]
	gRcvIn = ok
}

func spPubPre(t *TopicAgent, s *Server, from *arpc.Client, topic *Topic, c *arpc.Client) bool {
	x := vcAnd(vcAnd(s != nil, topic != nil), vcAnd(s.Server != nil, t.clients != nil))
	return vcAnd(vcAnd(x, c != nil), vcAnd(s.Server.Handler != nil, vcImp(from != nil, from.Conn != nil)))
}

func spPubReset(topic *Topic, c *arpc.Client) {
	gPMade = 0
	gPOwn = 0
	gPTopic = topic
	gPOKs = 0
	gPTried = 0
	gRcv = c
	gRcvPushed = 0
	vcHint("one", func() bool { return gPOwn == 1 })
	vcHint("made", func() bool { return gPMade == 1 })
	vcHint("pushed", func() bool {
		return vcImp(gRcvIn, vcAnd(vcImp(vcVisited(gRcv), gRcvPushed == 1), vcImp(!vcVisited(gRcv), gRcvPushed == 0)))
	})
	vcHint("notin", func() bool { return vcImp(!gRcvIn, gRcvPushed == 0) })
	vcHint("oks", func() bool { return gPOKs == 0 })
}

//@ contract (*TopicAgent).Publish
//@ property C16 C08
//@ theory publish
//@ opt locks
func ctTopicPublish(t *TopicAgent, s *Server, from *arpc.Client, topic *Topic, c *arpc.Client) {
	vcRequires(spPubPre(t, s, from, topic, c))
	spPubReset(topic, c)
	gPOne = false
	t.Publish(s, from, topic)
	vcEnsures("C16.a publish is pushed once to each receiver of the topic", gRcvPushed == vcIteInt(gRcvIn, 1, 0))
	vcEnsures("C08.a publish gives up every reference it holds", gPOwn == 0)
}

//@ contract (*TopicAgent).PublishToOne
//@ property C16 C08
//@ theory publish
//@ opt locks
func ctTopicPublishToOne(t *TopicAgent, s *Server, from *arpc.Client, topic *Topic, c *arpc.Client) {
	vcRequires(spPubPre(t, s, from, topic, c))
	spPubReset(topic, c)
	gPOne = true
	t.PublishToOne(s, from, topic)
	vcEnsures("C16.a publish to one is taken by one receiver at most", gPOKs <= 1)
	vcEnsures("C16.a publish to one gives up only after it tried each receiver", vcImp(vcAnd(gPOKs == 0, gRcvIn), gRcvPushed == 1))
	vcEnsures("C16.a publish to one goes to receivers of the topic only", vcImp(!gRcvIn, gRcvPushed == 0))
	vcEnsures("C08.a publish gives up every reference it holds", gPOwn == 0)
}

// ---- publish requests ----

var gPubAll, gPubOne int

//@ extern (*pubsub.TopicAgent).Publish
//@ theory ps
func exPsPublish(t *TopicAgent, s *Server, from *arpc.Client, topic *Topic) {
	vcAssert("C16.only an admitted connection publishes", vcOr(gByServer, vcAnd(gAuthed, from == gCli)))
	vcAssert("C16.a publish goes to the topic asked for", vcAnd(topic.Name == gAskName, vcAnd(t.Name == gAskName, gAskOK)))
	gPubAll++
}

//@ extern (*pubsub.TopicAgent).PublishToOne
//@ theory ps
func exPsPublishOne(t *TopicAgent, s *Server, from *arpc.Client, topic *Topic) {
	vcAssert("C16.only an admitted connection publishes", vcOr(gByServer, vcAnd(gAuthed, from == gCli)))
	vcAssert("C16.a publish goes to the topic asked for", vcAnd(topic.Name == gAskName, vcAnd(t.Name == gAskName, gAskOK)))
	gPubOne++
}

var gByServer bool

//@ contract (*Server).onPublish
//@ property C16
//@ theory ps
func ctOnPublish(s *Server, ctx *arpc.Context, n string) {
	vcRequires(spPsPre(s, ctx, n))
	spPsReset(s, ctx)
	gByServer = false
	gAuthed = vcChoice()
	gPubAll = 0
	gPubOne = 0
	s.onPublish(ctx)
	vcEnsures("C16.a connection that was not admitted publishes nothing", vcImp(!gAuthed, vcAnd(gPubAll == 0, gReplied == 0)))
	vcEnsures("C16.a well-formed publish of an admitted connection takes effect once", vcImp(vcOr(gReplied > 0, vcAnd(gAuthed, gAskOK)), vcAnd(gPubAll == 1, vcAnd(gReplied == 1, gRefused == 0))))
	vcEnsures("C16.a publish is not a publish to one", gPubOne == 0)
}

//@ contract (*Server).onPublishToOne
//@ property C16
//@ theory ps
func ctOnPublishToOne(s *Server, ctx *arpc.Context, n string) {
	vcRequires(spPsPre(s, ctx, n))
	spPsReset(s, ctx)
	gByServer = false
	gAuthed = vcChoice()
	gPubAll = 0
	gPubOne = 0
	s.onPublishToOne(ctx)
	vcEnsures("C16.a connection that was not admitted publishes nothing", vcImp(!gAuthed, vcAnd(gPubOne == 0, gReplied == 0)))
	vcEnsures("C16.a well-formed publish of an admitted connection takes effect once", vcImp(vcOr(gReplied > 0, vcAnd(gAuthed, gAskOK)), vcAnd(gPubOne == 1, vcAnd(gReplied == 1, gRefused == 0))))
	vcEnsures("C16.a publish to one is not a publish", gPubAll == 0)
}

// ---- publishing by the server ----

//@ extern util.ValueToBytes
//@ theory ps
func exPsValue(c codec.Codec, v interface{}, b []byte) []byte {
	gPubData = b
	return b
}

var gPubData []byte
var gEncTopic *Topic

//@ extern (*pubsub.Topic).toBytes
//@ theory ps
func exPsEncode(tp *Topic, raw []byte, err error) ([]byte, error) {
	vcAssert("C16.what the server publishes is the value it was given", vcAnd(vcSameArray(tp.Data, gPubData), len(tp.Data) == len(gPubData)))
	if err == nil {
		tp.raw = raw
		gEncTopic = tp
	}
	return raw, err
}

func spSrvPub(s *Server, topicName string) {
	spPsReset0()
	gByServer = true
	gAuthed = false
	gAskName = topicName
	gAskOK = len(topicName) > 0
	gPubAll = 0
	gPubOne = 0
	gEncTopic = nil
}

//@ contract (*Server).Publish
//@ property C16
//@ theory ps
func ctSrvPublish(s *Server, topicName string, v interface{}) error {
	vcRequires(vcAnd(s.Server != nil, s.topics != nil))
	spSrvPub(s, topicName)
	err := s.Publish(topicName, v)
	vcEnsures("C16.a publish by the server takes effect once or is reported", vcAnd(gPubOne == 0, gPubAll == vcIteInt(err == nil, 1, 0)))
	vcEnsures("C16.what is published was encoded", vcImp(err == nil, gEncTopic != nil))
	return err
}

//@ contract (*Server).PublishToOne
//@ property C16
//@ theory ps
func ctSrvPublishToOne(s *Server, topicName string, v interface{}) error {
	vcRequires(vcAnd(s.Server != nil, s.topics != nil))
	spSrvPub(s, topicName)
	err := s.PublishToOne(topicName, v)
	vcEnsures("C16.a publish to one by the server takes effect once or is reported", vcAnd(gPubAll == 0, gPubOne == vcIteInt(err == nil, 1, 0)))
	vcEnsures("C16.what is published was encoded", vcImp(err == nil, gEncTopic != nil))
	return err
}

// ---- wiring ----

var gWired int
var gW1, gW2, gW3, gW4, gW5, gW6 int

//@ extern arpc.NewServer
//@ theory wire
func exWireServer(h arpc.Handler) *arpc.Server {
	vcAssume(h != nil)
	return &arpc.Server{Handler: h}
}

//@ extern (arpc.Handler).SetLogTag
//@ theory wire
func exWireTag(h arpc.Handler, t string) {}

//@ extern (arpc.Handler).Handle
//@ theory wire
func exWireHandle(h arpc.Handler, m string, f arpc.HandlerFunc, args []interface{}) {
	gWired = 0
	f(nil)
	if m == routeAuthenticate {
		vcAssert("C16.authentication is served", gWired == 1)
		gW1++
	}
	if m == routeSubscribe {
		vcAssert("C16.subscribing is served", gWired == 2)
		gW2++
	}
	if m == routeUnsubscribe {
		vcAssert("C16.unsubscribing is served", gWired == 3)
		gW3++
	}
	if m == routePublish {
		vcAssert("C16.publishing is served", gWired == 4)
		gW4++
	}
	if m == routePublishToOne {
		vcAssert("C16.publishing to one is served", gWired == 5)
		gW5++
	}
}

//@ extern (arpc.Handler).HandleDisconnected
//@ theory wire
func exWireDisc(h arpc.Handler, f func(*arpc.Client)) {
	gWired = 0
	f(nil)
	vcAssert("C16.a disconnected connection is unsubscribed", gWired == 6)
	gW6++
}

//@ extern (*pubsub.Server).onAuthenticate
//@ theory wire
func exWire1(s *Server, ctx *arpc.Context) { gWired = 1 }

//@ extern (*pubsub.Server).onSubscribe
//@ theory wire
func exWire2(s *Server, ctx *arpc.Context) { gWired = 2 }

//@ extern (*pubsub.Server).onUnsubscribe
//@ theory wire
func exWire3(s *Server, ctx *arpc.Context) { gWired = 3 }

//@ extern (*pubsub.Server).onPublish
//@ theory wire
func exWire4(s *Server, ctx *arpc.Context) { gWired = 4 }

//@ extern (*pubsub.Server).onPublishToOne
//@ theory wire
func exWire5(s *Server, ctx *arpc.Context) { gWired = 5 }

//@ extern (*pubsub.Server).deleteClient
//@ theory wire
func exWire6(s *Server, c *arpc.Client) { gWired = 6 }

//@ contract NewServer
//@ property C16
//@ theory wire
func ctPsNewServer(n string) *Server {
	gW1 = 0
	gW2 = 0
	gW3 = 0
	gW4 = 0
	gW5 = 0
	gW6 = 0
	s := NewServer()
	vcEnsures("C16.a new server serves every request and sees disconnects", vcAnd(vcAnd(gW1 == 1, vcAnd(gW2 == 1, gW3 == 1)), vcAnd(gW4 == 1, vcAnd(gW5 == 1, gW6 >= 1))))
	_, has := s.topics[n]
	vcEnsures("C16.a new server has no topic", vcAnd(s.topics != nil, !has))
	return s
}
