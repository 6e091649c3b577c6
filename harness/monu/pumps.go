package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// pump drives one of the duplex command streams through closures.
type pump struct {
	name    string
	consume func(on func(string), stop <-chan struct{}) // until closed or stopped
	take    take                                        // one item or error
	errs    <-chan error
	close   func()
	ends    bool // its channels are closed when it ends
	genIn   func(*rand.Rand) (kit.Msg, string)
	// genOut draws an outgoing item: how to send it, and its wire form
	genOut func(*rand.Rand) (func(), kit.Msg)
	// noEncode sends an item with an argument that fails to encode
	noEncode func()
}

// stubborn is a program's own AMF value that cannot be encoded.
type stubborn struct{}

var errStubborn = errors.New("this value cannot be encoded")

func (stubborn) Native() reflect.Type          { return nil }
func (stubborn) Marker() byte                  { return 5 }
func (stubborn) Decode(io.Reader) error        { return errStubborn }
func (stubborn) Encode(io.Writer) (int, error) { return 0, errStubborn }

func eat[T any](ch <-chan T, f func(T) string) func(func(string), <-chan struct{}) {
	return func(on func(string), stop <-chan struct{}) {
		for {
			select {
			case x, ok := <-ch:
				if !ok {
					return
				}
				on(f(x))
			case <-stop:
				return
			}
		}
	}
}

var kinds = []string{"conn", "stream", "data"}

// build makes the pump and the function that runs it.
func build(kind string, feed chan *chunk.Chunk, w chunk.Writer) (*pump, func()) {
	switch kind {
	case "conn":
		n := conn.NewNetConnection(feed, w)
		return connPump(n), n.Listen
	case "stream":
		n := stream.New(feed, w)
		return streamPump(n), n.Listen
	}
	s := data.NewStream(feed, w)
	return dataPump(s), s.Recv
}

func connPump(n *conn.NetConn) *pump {
	return &pump{
		noEncode: func() {
			o := kv{{"a", "b"}}.object()
			o.Add("c", stubborn{})
			n.Out() <- &conn.ConnectResponse{Properties: *o, Information: *kv{}.object()}
		},
		name: "NetConn", consume: eat(n.In(), connValue), take: taker(n.In(), n.Errs(), connValue), errs: n.Errs(), close: n.Close, genIn: genConn,
		genOut: func(rng *rand.Rand) (func(), kit.Msg) {
			m := kit.Msg{CSID: 3, Type: 0x14}
			t := num(rng)
			if rng.Intn(2) == 0 {
				id := num(rng)
				m.Data = cat(aStr("_result"), aNum(t), aNull(), aNum(id))
				return func() { n.Out() <- &conn.CreateStreamResponse{TransactionId: t, StreamID: id} }, m
			}
			p, i := genKV(rng), genKV(rng)
			m.Data = cat(aStr("_result"), aNum(t), aObj(p), aObj(i))
			return func() {
				n.Out() <- &conn.ConnectResponse{TransactionId: t, Properties: *p.object(), Information: *i.object()}
			}, m
		},
	}
}

func streamPump(n *stream.NetStream) *pump {
	return &pump{
		noEncode: func() {
			s := stream.NewStatus()
			s.Arguments.Add("c", stubborn{})
			n.Status() <- s
		},
		name: "NetStream", consume: eat(n.In(), streamValue), take: taker(n.In(), n.Errs(), streamValue), errs: n.Errs(), close: n.Close, ends: true, genIn: genStream,
		genOut: func(rng *rand.Rand) (func(), kit.Msg) {
			o := genKV(rng)
			m := kit.Msg{CSID: 5, Type: 0x14, MSID: 1, Data: statusBody(o)}
			return func() {
				s := stream.NewStatus()
				s.Arguments = *o.object()
				n.Status() <- s
			}, m
		},
	}
}

func statusBody(o kv) []byte { return cat(aStr("onStatus"), aNum(0), aNull(), aObj(o)) }

func dataPump(s *data.Stream) *pump {
	return &pump{
		noEncode: func() {
			x := newArray(kv{{"a", "b"}})
			x.Add("c", stubborn{})
			s.In() <- &data.DataFrame{Header: "h", Type: "t", Arguments: x}
		},
		name: "data stream", consume: eat(s.Out(), dataValue), take: taker(s.Out(), s.Errs(), dataValue), errs: s.Errs(), close: s.Close, ends: true, genIn: genData,
		genOut: func(rng *rand.Rand) (func(), kit.Msg) {
			if rng.Intn(3) == 0 {
				h, t, o := word(rng), word(rng), genKV(rng)
				m := kit.Msg{CSID: 4, Type: 0x12, MSID: 1, Data: cat(aStr(h), aStr(t), aArr(o))}
				f := &data.DataFrame{Header: h, Type: t, Arguments: nil}
				x := newArray(o)
				f.Arguments = x
				return func() { s.In() <- f }, m
			}
			m := frame(rng)
			return func() {
				var d data.Data = &data.Audio{}
				if m.Type == 9 {
					d = &data.Video{}
				}
				d.Read(m.Chunk())
				s.In() <- d
			}, m
		},
	}
}

// frame draws an audio or video message.
func frame(rng *rand.Rand) kit.Msg {
	ts, ext := kit.TS(rng)
	n := 1 + rng.Intn(500)
	if rng.Intn(6) == 0 {
		n = 1 + kit.Len(rng, 4096, 20000)
	}
	return kit.Msg{CSID: 4, TS: ts, Ext: ext, Type: byte(8 + rng.Intn(2)), MSID: kit.MSID(rng), Data: kit.Bytes(rng, n)}
}

// genConn draws a NetConnection command, "" when it cannot be understood.
func genConn(rng *rand.Rand) (kit.Msg, string) {
	m := kit.Msg{CSID: 3, Type: 0x14}
	t := num(rng)
	var v string
	switch rng.Intn(5) {
	case 0:
		o := genKV(rng)
		m.Data = cat(aStr("connect"), aNum(t), aObj(o))
		v = fmt.Sprintf("connect %v %v", t, o)
	case 1:
		m.Data = cat(aStr("createStream"), aNum(t), aNull())
		v = fmt.Sprintf("createStream %v {}", t)
		if rng.Intn(2) == 0 {
			o := genKV(rng)
			m.Data = cat(aStr("createStream"), aNum(t), aObj(o))
			v = fmt.Sprintf("createStream %v %v", t, o)
		}
	case 2:
		k := word(rng)
		m.Data = cat(aStr("releaseStream"), aNum(t), aNull(), aStr(k))
		v = fmt.Sprintf("releaseStream %v %s", t, k)
	case 3:
		k := word(rng)
		m.Data = cat(aStr("FCPublish"), aNum(t), aNull(), aStr(k))
		v = fmt.Sprintf("FCPublish %v %s", t, k)
	case 4:
		k := word(rng)
		m.Data = cat(aStr("getStreamLength"), aNum(t), aNull(), aStr(k))
		v = fmt.Sprintf("getStreamLength %v %s", t, k)
	}
	return spoil(rng, m, v)
}

// spoil makes some messages unintelligible.
func spoil(rng *rand.Rand, m kit.Msg, v string) (kit.Msg, string) {
	if rng.Intn(4) > 0 {
		return m, v
	}
	switch rng.Intn(4) {
	case 0:
		m.Data = cat(aStr("noSuchCommand"), aNum(1), aNull())
	case 1:
		m.Data = cat(aNum(3), m.Data)
	case 2:
		m.Data = nil
	case 3:
		m.Data = m.Data[:rng.Intn(len(m.Data))]
	}
	return m, ""
}

func connValue(r conn.Receivable) string {
	switch x := r.(type) {
	case *conn.ConnectCommand:
		return fmt.Sprintf("connect %v %v", x.TransactionId, show(x.Metadata))
	case *conn.CreateStreamCommand:
		return fmt.Sprintf("createStream %v %v", x.TransactionId, show(x.Metadata))
	case *conn.ReleaseCommand:
		return fmt.Sprintf("releaseStream %v %s", x.TransactionId, x.StreamKey)
	case *conn.FCPublishCommand:
		return fmt.Sprintf("FCPublish %v %s", x.TransactionId, x.StreamKey)
	case *conn.GetStreamLength:
		return fmt.Sprintf("getStreamLength %v %s", x.StreamId, x.PlayPath)
	}
	return fmt.Sprintf("%T", r)
}

func genStream(rng *rand.Rand) (kit.Msg, string) {
	m := kit.Msg{CSID: 4, Type: 0x14, MSID: 1}
	if rng.Intn(2) == 0 {
		m.CSID = 8
	}
	head := func(n string) []byte { return cat(aStr(n), aNum(0), aNull()) }
	s, t, a, b := word(rng), word(rng), num(rng), rng.Intn(2) == 0
	var v string
	switch rng.Intn(8) {
	case 0:
		m.Data = cat(head("play"), aStr(s), aNum(a))
		v = fmt.Sprintf("play %s %v", s, a)
	case 1:
		o := genKV(rng)
		m.Data = cat(head("play2"), aObj(o))
		v = fmt.Sprintf("play2 %v", o)
	case 2:
		m.Data = cat(head("deleteStream"), aNum(a))
		v = fmt.Sprintf("deleteStream %v", a)
	case 3:
		m.Data = cat(head("receiveAudio"), aBool(b))
		v = fmt.Sprintf("receiveAudio %v", b)
	case 4:
		m.Data = cat(head("receiveVideo"), aBool(b))
		v = fmt.Sprintf("receiveVideo %v", b)
	case 5:
		m.Data = cat(head("publish"), aStr(s), aStr(t))
		v = fmt.Sprintf("publish %s %s", s, t)
	case 6:
		m.Data = cat(head("seek"), aNum(a))
		v = fmt.Sprintf("seek %v", a)
	case 7:
		m.Data = cat(head("pause"), aBool(b), aNum(a))
		v = fmt.Sprintf("pause %v %v", b, a)
	}
	return spoil(rng, m, v)
}

func streamValue(c stream.Command) string {
	switch x := c.(type) {
	case *stream.CommandPlay:
		return fmt.Sprintf("play %s %v", x.PlayPath, x.Live)
	case *stream.CommandPlay2:
		return fmt.Sprintf("play2 %v", show(x.Parameters))
	case *stream.CommandDeleteStream:
		return fmt.Sprintf("deleteStream %v", x.StreamId)
	case *stream.CommandReceiveAudio:
		return fmt.Sprintf("receiveAudio %v", x.Successful)
	case *stream.CommandReceiveVideo:
		return fmt.Sprintf("receiveVideo %v", x.Successful)
	case *stream.CommandPublish:
		return fmt.Sprintf("publish %s %s", x.Name, x.Type)
	case *stream.CommandSeek:
		return fmt.Sprintf("seek %v", x.OffsetMillis)
	case *stream.CommandPause:
		return fmt.Sprintf("pause %v %v", x.Paused, x.CutoffMillis)
	}
	return fmt.Sprintf("%T", c)
}

func genData(rng *rand.Rand) (kit.Msg, string) {
	if rng.Intn(4) == 0 {
		h, t, o := word(rng), word(rng), genKV(rng)
		m := kit.Msg{CSID: 4, Type: 0x12, MSID: 1, Data: cat(aStr(h), aStr(t), aArr(o))}
		if rng.Intn(3) == 0 {
			m.Data = m.Data[:rng.Intn(len(m.Data))]
			return m, ""
		}
		return m, fmt.Sprintf("frame %s %s %v", h, t, o)
	}
	m := frame(rng)
	if rng.Intn(6) == 0 {
		m.Data = nil
		return m, ""
	}
	return m, fmt.Sprintf("%d %x %x", m.Type, m.Data[0], m.Data[1:])
}

func dataValue(d data.Data) string {
	switch x := d.(type) {
	case *data.Audio:
		return fmt.Sprintf("8 %x %x", x.Control(), x.Payload())
	case *data.Video:
		return fmt.Sprintf("9 %x %x", x.Control(), x.Payload())
	case *data.DataFrame:
		return fmt.Sprintf("frame %s %s %v", x.Header, x.Type, show(x.Arguments))
	}
	return fmt.Sprintf("%T", d)
}

// genControl draws a control message other than those the reader interprets.
func genControl(rng *rand.Rand) (control.Control, kit.Msg, string) {
	v := rng.Uint32()
	b := []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	m := kit.Msg{CSID: 2, Data: b}
	switch rng.Intn(3) {
	case 0:
		m.Type = 3
		return &control.Acknowledgement{SequenceNumber: v}, m, fmt.Sprintf("ack %d", v)
	case 1:
		m.Type = 5
		return &control.WindowAckSize{WindowAckSize: v}, m, fmt.Sprintf("window %d", v)
	}
	m.Type = 6
	m.Data = append(b, byte(v%3))
	return &control.SetPeerBandwidth{AckWindowSize: v, LimitType: control.LimitType(v % 3)}, m, fmt.Sprintf("bandwidth %d %d", v, v%3)
}

func controlValue(c control.Control) string {
	switch x := c.(type) {
	case *control.Acknowledgement:
		return fmt.Sprintf("ack %d", x.SequenceNumber)
	case *control.WindowAckSize:
		return fmt.Sprintf("window %d", x.WindowAckSize)
	case *control.SetPeerBandwidth:
		return fmt.Sprintf("bandwidth %d %d", x.AckWindowSize, x.LimitType)
	}
	return fmt.Sprintf("%T", c)
}
