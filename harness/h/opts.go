package h

import (
	"time"

	"github.com/jumboframes/armorigo/log"
	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/server"
	"github.com/singchia/geminio/zzverif/v"
	"github.com/singchia/go-timer/v2"
)

// nOpts is how many option values are combined; any of them may be nil.
func nOpts() int {
	if v.Thorough() {
		return 3
	}
	return 2 + v.Choice("third", 2)
}

// H_OptCall: Call and NewRequest options.
func H_OptCall() {
	n := nOpts()
	var cs []*options.CallOptions
	var wantT *time.Duration
	vals := make([]time.Duration, n)
	for i := 0; i < n; i++ {
		switch v.Choice("call", 3) {
		case 0:
			cs = append(cs, nil)
		case 1:
			cs = append(cs, options.Call())
		case 2:
			o := options.Call()
			vals[i] = time.Duration(v.U64("timeout"))
			o.SetTimeout(vals[i])
			cs = append(cs, o)
			wantT = &vals[i]
		}
	}
	m := options.MergeCallOptions(cs...)
	v.Assert((m.Timeout == nil) == (wantT == nil), "call timeout set although no option sets it, or lost")
	if wantT != nil && m.Timeout != nil {
		v.Assert(*m.Timeout == *wantT, "call timeout is not the last one set")
	}
	for i, o := range cs {
		if o != nil && o.Timeout != nil {
			v.Assert(*o.Timeout == vals[i], "call option modified by the combination")
		}
		if o != nil && o == m {
			v.Assert(false, "combination returned one of its inputs")
		}
	}
	v.Reach("merged")
}

func H_OptRequest() {
	n := nOpts()
	var os []*options.NewRequestOptions
	var want []byte
	vals := make([][]byte, n)
	for i := 0; i < n; i++ {
		k := v.Choice("req", 4)
		switch {
		case k == 0:
			os = append(os, nil)
		case k == 1:
			os = append(os, options.NewRequest())
		default:
			o := options.NewRequest()
			b := v.Bytes("custom", (k-2)*2)
			vals[i] = append([]byte{}, b...)
			o.SetCustom(b)
			os = append(os, o)
			want = vals[i]
		}
	}
	m := options.MergeNewRequestOptions(os...)
	v.Assert((m.Custom == nil) == (want == nil), "custom bytes set although no option sets them, or lost")
	v.Assert(v.Eq(m.Custom, want), "custom bytes are not the last ones set")
	for i, o := range os {
		if o != nil {
			v.Assert((o.Custom == nil) == (vals[i] == nil), "request option modified by the combination")
			v.Assert(v.Eq(o.Custom, vals[i]), "request option modified by the combination")
		}
	}
	v.Reach("merged")
}

func H_OptPublish() {
	n := nOpts()
	var os []*options.PublishOptions
	var want *time.Duration
	vals := make([]time.Duration, n)
	for i := 0; i < n; i++ {
		switch v.Choice("pub", 3) {
		case 0:
			os = append(os, nil)
		case 1:
			os = append(os, options.Publish())
		case 2:
			o := options.Publish()
			vals[i] = time.Duration(v.U64("timeout"))
			o.SetTimeout(vals[i])
			os = append(os, o)
			want = &vals[i]
		}
	}
	m := options.MergePublishOptions(os...)
	v.Assert((m.Timeout == nil) == (want == nil), "publish timeout set although no option sets it, or lost")
	if want != nil && m.Timeout != nil {
		v.Assert(*m.Timeout == *want, "publish timeout is not the last one set")
	}
	for i, o := range os {
		if o != nil && o.Timeout != nil {
			v.Assert(*o.Timeout == vals[i], "publish option modified by the combination")
		}
	}
	v.Reach("merged")
}

func H_OptMessage() {
	n := 2
	if v.Thorough() {
		n = 3
	}
	type val struct {
		custom []byte
		cnss   *options.Cnss
		topic  *string
	}
	var os []*options.NewMessageOptions
	var want val
	vals := make([]val, n)
	for i := 0; i < n; i++ {
		if v.Choice("nil", 2) == 1 {
			os = append(os, nil)
			continue
		}
		o := options.NewMessage()
		if k := v.Choice("custom", 3); k > 0 {
			b := v.Bytes("custombytes", (k-1)*2)
			vals[i].custom = append([]byte{}, b...)
			o.SetCustom(b)
			want.custom = vals[i].custom
		}
		if v.Choice("cnss", 2) == 1 {
			c := options.Cnss(v.U8("cnssval"))
			o.SetCnss(c)
			vals[i].cnss = &c
			want.cnss = &c
		}
		if k := v.Choice("topic", 3); k > 0 {
			s := v.Text("topictext", (k-1)*2)
			o.SetTopic(s)
			vals[i].topic = &s
			want.topic = &s
		}
		os = append(os, o)
	}
	m := options.MergeNewMessageOptions(os...)
	v.Assert((m.Custom == nil) == (want.custom == nil) && (m.Cnss == nil) == (want.cnss == nil) && (m.Topic == nil) == (want.topic == nil),
		"message setting set although no option sets it, or lost")
	v.Assert(v.Eq(m.Custom, want.custom), "message custom bytes are not the last ones set")
	if m.Cnss != nil && want.cnss != nil {
		v.Assert(*m.Cnss == *want.cnss, "message consistency is not the last one set")
	}
	if m.Topic != nil && want.topic != nil {
		v.Assert(v.EqS(*m.Topic, *want.topic), "message topic is not the last one set")
	}
	for i, o := range os {
		if o == nil {
			continue
		}
		x := vals[i]
		v.Assert((o.Custom == nil) == (x.custom == nil) && (o.Cnss == nil) == (x.cnss == nil) && (o.Topic == nil) == (x.topic == nil),
			"message option modified by the combination")
		v.Assert(v.Eq(o.Custom, x.custom), "message option modified by the combination")
		if o.Cnss != nil && x.cnss != nil {
			v.Assert(*o.Cnss == *x.cnss, "message option modified by the combination")
		}
		if o.Topic != nil && x.topic != nil {
			v.Assert(v.EqS(*o.Topic, *x.topic), "message option modified by the combination")
		}
	}
	v.Reach("merged")
}

func H_OptStream() {
	n := nOpts()
	var os []*options.OpenStreamOptions
	var wantM []byte
	var wantP *string
	ms, ps := make([][]byte, n), make([]*string, n)
	for i := 0; i < n; i++ {
		if v.Choice("nil", 2) == 1 {
			os = append(os, nil)
			continue
		}
		o := options.OpenStream()
		if k := v.Choice("meta", 3); k > 0 {
			b := v.Bytes("metabytes", (k-1)*2)
			ms[i] = append([]byte{}, b...)
			o.SetMeta(b)
			wantM = ms[i]
		}
		if k := v.Choice("peer", 3); k > 0 {
			s := v.Text("peertext", (k-1)*2)
			o.SetPeer(s)
			ps[i], wantP = &s, &s
		}
		os = append(os, o)
	}
	m := options.MergeOpenStreamOptions(os...)
	v.Assert((m.Meta == nil) == (wantM == nil) && (m.Peer == nil) == (wantP == nil), "stream setting set although no option sets it, or lost")
	v.Assert(v.Eq(m.Meta, wantM), "stream meta is not the last one set")
	if m.Peer != nil && wantP != nil {
		v.Assert(v.EqS(*m.Peer, *wantP), "stream peer is not the last one set")
	}
	for i, o := range os {
		if o == nil {
			continue
		}
		v.Assert((o.Meta == nil) == (ms[i] == nil) && (o.Peer == nil) == (ps[i] == nil), "stream option modified by the combination")
		v.Assert(v.Eq(o.Meta, ms[i]), "stream option modified by the combination")
		if o.Peer != nil && ps[i] != nil {
			v.Assert(v.EqS(*o.Peer, *ps[i]), "stream option modified by the combination")
		}
	}
	v.Reach("merged")
}

// H_OptHijack also sets the exported fields one without the other.
func H_OptHijack() {
	n := 2
	if v.Thorough() {
		n = 3
	}
	var os []*options.HijackOptions
	var wantM *bool
	var wantP *string
	ms, ps := make([]*bool, n), make([]*string, n)
	for i := 0; i < n; i++ {
		k := v.Choice("hijack", 5)
		if k == 0 {
			os = append(os, nil)
			continue
		}
		o := options.Hijack()
		b, s := v.Bool("match"), v.Text("pattern", 2)
		switch k {
		case 2:
			o.SetMatch(b, s)
			ms[i], ps[i] = &b, &s
		case 3:
			x := b
			o.Match, ms[i] = &x, &b
		case 4:
			x := s
			o.Pattern, ps[i] = &x, &s
		}
		if ms[i] != nil {
			wantM = ms[i]
		}
		if ps[i] != nil {
			wantP = ps[i]
		}
		os = append(os, o)
	}
	m := options.MergeHijackOptions(os...)
	v.Assert((m.Match == nil) == (wantM == nil) && (m.Pattern == nil) == (wantP == nil), "hijack setting set although no option sets it, or lost")
	if m.Match != nil && wantM != nil {
		v.Assert(*m.Match == *wantM, "hijack match is not the last one set")
	}
	if m.Pattern != nil && wantP != nil {
		v.Assert(v.EqS(*m.Pattern, *wantP), "hijack pattern is not the last one set")
	}
	for i, o := range os {
		if o == nil {
			continue
		}
		v.Assert((o.Match == nil) == (ms[i] == nil) && (o.Pattern == nil) == (ps[i] == nil), "hijack option modified by the combination")
		if o.Match != nil && ms[i] != nil {
			v.Assert(*o.Match == *ms[i], "hijack option modified by the combination")
		}
		if o.Pattern != nil && ps[i] != nil {
			v.Assert(v.EqS(*o.Pattern, *ps[i]), "hijack option modified by the combination")
		}
	}
	v.Reach("merged")
}

type dlg struct {
	delegate.UnimplementedDelegate
	pad int
}

func (*dlg) GetClientID(uint64, []byte) (uint64, error) { return 0, nil }

func strsEq(a, b []string) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func rpcsEq(a, b []*geminio.MethodRPC) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func rpcsOf(i int) []*geminio.MethodRPC {
	return []*geminio.MethodRPC{{Method: string(rune('a' + i))}, {Method: "x"}}[:1+i%2]
}

// endFields are the settings of an end, each with a bit in the mask.
const endFields = 11

// endMasks chooses which settings each of two option values has: everything in
// pairs of fields is covered, and both all-or-none.
func endMask(name string) uint {
	k := v.Choice(name, endFields+endFields*(endFields-1)/2+2)
	if k == 0 {
		return 0
	}
	if k == 1 {
		return 1<<endFields - 1
	}
	k -= 2
	if k < endFields {
		return 1 << uint(k)
	}
	k -= endFields
	for i := 0; i < endFields; i++ {
		for j := i + 1; j < endFields; j++ {
			if k == 0 {
				return 1<<uint(i) | 1<<uint(j)
			}
			k--
		}
	}
	return 0
}

// H_OptClientEnd: end options of the client side.
func H_OptClientEnd() {
	var want [2]client.EndOptions
	var res client.EndOptions
	res.ReadBufferSize, res.WriteBufferSize = -1, -1
	var os []*client.EndOptions
	for i := 0; i < 2; i++ {
		m := endMask("mask")
		o := client.NewEndOptions()
		w := client.EndOptions{ReadBufferSize: -1, WriteBufferSize: -1}
		if m&1 != 0 {
			w.Timer = timer.NewTimer()
			o.SetTimer(w.Timer)
			res.Timer = w.Timer
		}
		if m&2 != 0 {
			w.PacketFactory = packet.NewPacketFactory(id.NewIDCounter(id.Odd))
			o.SetPacketFactory(w.PacketFactory)
			res.PacketFactory = w.PacketFactory
		}
		if m&4 != 0 {
			l := log.NewLog()
			w.Log = l
			o.SetLog(l)
			res.Log = l
		}
		if m&8 != 0 {
			w.Delegate = &dlg{}
			o.SetDelegate(w.Delegate)
			res.Delegate = w.Delegate
		}
		if m&16 != 0 {
			c := v.U64("clientid")
			w.ClientID = &c
			o.SetClientID(c)
			res.ClientID = &c
		}
		if m&32 != 0 {
			w.Meta = v.Bytes("meta", 2*v.Choice("metalen", 2))
			o.SetMeta(w.Meta)
			res.Meta = w.Meta
		}
		if m&64 != 0 {
			w.RemoteMethods = []string{"p", "q"}[:i+1]
			o.SetWaitRemoteRPCs(w.RemoteMethods...)
			res.RemoteMethods = w.RemoteMethods
		}
		if m&128 != 0 {
			w.RemoteMethodCheck = true
			o.SetRemoteRPCCheck()
			res.RemoteMethodCheck = true
		}
		if m&256 != 0 {
			w.LocalMethods = rpcsOf(i)
			o.SetRegisterLocalRPCs(w.LocalMethods...)
			res.LocalMethods = w.LocalMethods
		}
		if m&512 != 0 {
			n := int(v.U8("readbuf")) + 1
			w.ReadBufferSize = n
			o.SetBufferSize(n, -1)
			res.ReadBufferSize = n
		}
		if m&1024 != 0 {
			n := int(v.U8("writebuf")) + 1
			w.WriteBufferSize = n
			o.SetBufferSize(o.ReadBufferSize, n)
			res.WriteBufferSize = n
		}
		want[i] = w
		os = append(os, o)
		if i == 0 && v.Choice("nilbetween", 2) == 1 {
			os = append(os, nil)
		}
	}
	r := client.MergeEndOptions(os...)
	same := func(a *client.EndOptions, b *client.EndOptions) bool {
		ok := a.Timer == b.Timer && a.PacketFactory == b.PacketFactory && a.Log == b.Log && a.Delegate == b.Delegate &&
			strsEq(a.RemoteMethods, b.RemoteMethods) && a.RemoteMethodCheck == b.RemoteMethodCheck && rpcsEq(a.LocalMethods, b.LocalMethods) &&
			(a.ClientID == nil) == (b.ClientID == nil) && (a.Meta == nil) == (b.Meta == nil)
		if !ok {
			return false
		}
		e := v.And(a.ReadBufferSize == b.ReadBufferSize, a.WriteBufferSize == b.WriteBufferSize, v.Eq(a.Meta, b.Meta))
		if a.ClientID != nil {
			e = v.And(e, *a.ClientID == *b.ClientID)
		}
		return e
	}
	v.Assert(same(r, &res), "client end setting is not the last one set")
	j := 0
	for _, o := range os {
		if o == nil {
			continue
		}
		v.Assert(same(o, &want[j]), "client end option modified by the combination")
		j++
	}
	v.Reach("merged")
}

// H_OptServerEnd: end options of the server side.
func H_OptServerEnd() {
	var want [2]server.EndOptions
	var res server.EndOptions
	res.ReadBufferSize, res.WriteBufferSize = -1, -1
	var os []*server.EndOptions
	var gotA, gotC, wantA, wantC int
	for i := 0; i < 2; i++ {
		i := i
		m := endMask("mask")
		o := server.NewEndOptions()
		w := server.EndOptions{ReadBufferSize: -1, WriteBufferSize: -1}
		if m&1 != 0 {
			w.Timer = timer.NewTimer()
			o.SetTimer(w.Timer)
			res.Timer = w.Timer
		}
		if m&2 != 0 {
			w.PacketFactory = packet.NewPacketFactory(id.NewIDCounter(id.Odd))
			o.SetPacketFactory(w.PacketFactory)
			res.PacketFactory = w.PacketFactory
		}
		if m&4 != 0 {
			l := log.NewLog()
			w.Log = l
			o.SetLog(l)
			res.Log = l
		}
		if m&8 != 0 {
			w.Delegate = &dlg{}
			o.SetDelegate(w.Delegate)
			res.Delegate = w.Delegate
		}
		if m&16 != 0 {
			c := v.U64("clientid")
			w.ClientID = &c
			o.SetClientID(c)
			res.ClientID = &c
		}
		if m&32 != 0 {
			o.SetAcceptStreamFunc(func(geminio.Stream) { gotA = i + 1 })
			wantA = i + 1
			// either function may be set without the other
			o.SetClosedStreamFunc(func(geminio.Stream) { gotC = i + 1 })
			wantC = i + 1
			switch v.Choice("which", 3) {
			case 1:
				o.AcceptStreamFunc = nil
				wantA = 0
				if i == 1 && os[0].AcceptStreamFunc != nil {
					wantA = 1
				}
			case 2:
				o.ClosedStreamFunc = nil
				wantC = 0
				if i == 1 && os[0].ClosedStreamFunc != nil {
					wantC = 1
				}
			}
		}
		if m&64 != 0 {
			w.RemoteMethods = []string{"p", "q"}[:i+1]
			o.SetWaitRemoteRPCs(w.RemoteMethods...)
			res.RemoteMethods = w.RemoteMethods
		}
		if m&128 != 0 {
			w.RemoteMethodCheck = true
			o.SetRemoteRPCCheck()
			res.RemoteMethodCheck = true
		}
		if m&256 != 0 {
			w.LocalMethods = rpcsOf(i)
			o.SetRegisterLocalRPCs(w.LocalMethods...)
			res.LocalMethods = w.LocalMethods
		}
		if m&512 != 0 {
			n := int(v.U8("readbuf")) + 1
			w.ReadBufferSize = n
			o.SetBufferSize(n, -1)
			res.ReadBufferSize = n
		}
		if m&1024 != 0 {
			n := int(v.U8("writebuf")) + 1
			w.WriteBufferSize = n
			o.SetBufferSize(o.ReadBufferSize, n)
			res.WriteBufferSize = n
		}
		want[i] = w
		os = append(os, o)
	}
	r := server.MergeEndOptions(os...)
	same := func(a, b *server.EndOptions) bool {
		ok := a.Timer == b.Timer && a.PacketFactory == b.PacketFactory && a.Log == b.Log && a.Delegate == b.Delegate &&
			strsEq(a.RemoteMethods, b.RemoteMethods) && a.RemoteMethodCheck == b.RemoteMethodCheck && rpcsEq(a.LocalMethods, b.LocalMethods) &&
			(a.ClientID == nil) == (b.ClientID == nil)
		if !ok {
			return false
		}
		e := v.And(a.ReadBufferSize == b.ReadBufferSize, a.WriteBufferSize == b.WriteBufferSize)
		if a.ClientID != nil {
			e = v.And(e, *a.ClientID == *b.ClientID)
		}
		return e
	}
	v.Assert(same(r, &res), "server end setting is not the last one set")
	v.Assert((r.AcceptStreamFunc != nil) == (wantA != 0) && (r.ClosedStreamFunc != nil) == (wantC != 0), "stream function set although no option sets it, or lost")
	if r.AcceptStreamFunc != nil {
		r.AcceptStreamFunc(nil)
		v.Assert(gotA == wantA, "accept function is not the last one set")
	}
	if r.ClosedStreamFunc != nil {
		r.ClosedStreamFunc(nil)
		v.Assert(gotC == wantC, "closed function is not the last one set")
	}
	for j, o := range os {
		v.Assert(same(o, &want[j]), "server end option modified by the combination")
	}
	v.Reach("merged")
}
