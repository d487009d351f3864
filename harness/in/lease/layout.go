package lease

import (
	"bytes"
	"encoding/binary"
	"time"

	"github.com/tg123/phabrik/zzverif/sym"
)

// The layout of a lease message, written without the code under test.

const verifHeader = 200 // bytes in a message header

func verifU32(b []byte) uint32 { return binary.LittleEndian.Uint32(b) }

func verifUtf16(s string) []byte {
	var out []byte
	for i := 0; i < len(s); i++ {
		out = append(out, s[i], 0)
	}
	return out
}

func verifList(app string, names []string) []byte {
	var b []byte
	le := func(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }
	b = append(b, le(len(names))...)
	for _, n := range names {
		b = append(b, le(2*len(app))...)
		b = append(b, verifUtf16(app)...)
		b = append(b, le(2*len(n))...)
		b = append(b, verifUtf16(n)...)
	}
	return append(le(len(b)), b...)
}

func verifAscii(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c < 0x80 && c > 0)
	}
	return string(b)
}

// verifMs is an arbitrary number of whole milliseconds that fits 32 bits.
func verifMs(name string, which bool) time.Duration {
	if !which {
		return 1500 * time.Millisecond
	}
	return time.Duration(sym.I32(name)) * time.Millisecond
}

func verifMessage() (*marshalContext, *Message, [][]string) {
	m := &marshalContext{AppId: "app", Address: "10.0.0.1", Port: 443}
	msg := &Message{Type: LeaseMessageTypePingRequest, LeaseInstance: 5, RemoteLeaseAgentInstance: 6, MessageListenEndpoint: "ignored"}
	which := sym.Choose("arbitrary", 5)
	switch which {
	case 0:
		msg.Type = LeaseMessageType(sym.I32("type"))
		msg.LeaseInstance = sym.I64("instance")
		msg.RemoteLeaseAgentInstance = sym.I64("remote")
		msg.IsTwoWayTermination = sym.Bool("twoway")
	case 1:
		m.AppId = verifAscii("app", sym.Choose("applen", 4))
		m.Address = verifAscii("addr", sym.Choose("addrlen", sym.Tier(6, 12)))
		for i := 0; i < len(m.Address); i++ {
			sym.Assume(m.Address[i] != ':' && m.Address[i] != '%')
		}
	case 2:
		m.Port = sym.U16("port")
	}
	msg.Duration = verifMs("duration", which == 3)
	msg.Expiration = verifMs("expiration", false)
	if which == 3 {
		// the field has 64 bits
		x := sym.I64("expiration") << 21 >> 21
		msg.Expiration = time.Duration(x) * time.Millisecond
	}
	msg.LeaseSuspendDuration = verifMs("suspend", which == 4)
	msg.ArbitrationDuration = verifMs("arbitration", which == 4)
	lists := make([][]string, 9)
	if which == 0 || which == 1 {
		// two lists with members
		i := sym.Choose("list", 9)
		lists[i] = []string{"ab", verifAscii("name", sym.Choose("namelen", 3))}
		lists[(i+1+sym.Choose("other", sym.Tier(2, 8)))%9] = []string{verifAscii("name", 1)}
	}
	msg.SubjectEstablishPendingList = lists[0]
	msg.SubjectFailedPendingList = lists[1]
	msg.MonitorFailedPendingList = lists[2]
	msg.SubjectPendingAcceptedList = lists[3]
	msg.SubjectFailedAcceptedList = lists[4]
	msg.MonitorFailedAcceptedList = lists[5]
	msg.SubjectPendingRejectedList = lists[6]
	msg.SubjectTerminatePendingList = lists[7]
	msg.SubjectTerminateAcceptedList = lists[8]
	return m, msg, lists
}

//verif:harness prop=C27 budget=90 tbudget=300 bound="one message with any of: type, instances, termination flag arbitrary; application id up to 3, address up to 5 (thorough 11) and list members up to 2 arbitrary ASCII characters; any port; any durations of whole milliseconds in 32 bits, an expiration of any whole milliseconds in 43 bits (a duration holds 44); two of the nine lists with members"
func VerifLayout() {
	m, msg, lists := verifMessage()
	data, err := m.marshal(msg)
	sym.Assert(err == nil, "encoding a lease message fails")
	sym.Assert(len(data) >= verifHeader, "the message is shorter than its header")
	sym.Assert(verifU32(data[4:]) == verifHeader, "the header size is wrong")
	sym.Assert(verifU32(data[8:]) == uint32(len(data)), "the message size is wrong")
	// descriptors
	used := make([]bool, len(data))
	claim := func(at int) (uint32, []byte) {
		n, st, size := verifU32(data[at:]), verifU32(data[at+4:]), verifU32(data[at+8:])
		s, z := sym.Concrete(int(st)), sym.Concrete(int(size))
		sym.Assert(s >= verifHeader && z >= 0 && s+z <= len(data), "a list descriptor leaves the message")
		for i := s; i < s+z; i++ {
			sym.Assert(!used[i], "list descriptors overlap")
			used[i] = true
		}
		return n, data[s : s+z]
	}
	for i, l := range lists {
		n, d := claim(76 + 12*i)
		sym.Assert(n == uint32(len(l)), "a list descriptor has the wrong count")
		sym.Assert(sym.BytesEq(d, verifList(m.AppId, l)), "a list descriptor designates something else than its list")
	}
	_, d := claim(76 + 12*9)
	want := append(verifUtf16(m.Address), 0, 0, 2, 0, byte(m.Port), byte(m.Port>>8))
	sym.Assert(sym.BytesEq(d, want), "the listen endpoint's descriptor designates something else")
	// fixed fields
	le32 := func(at int) int32 { return int32(verifU32(data[at:])) }
	le64 := func(at int) int64 { return int64(binary.LittleEndian.Uint64(data[at:])) }
	sym.Assert(le32(24) == int32(msg.Type), "the type is wrong")
	sym.Assert(sym.And(le64(32) == msg.LeaseInstance, le64(40) == msg.RemoteLeaseAgentInstance), "an instance is wrong")
	ms := int64(time.Millisecond)
	sym.Assert(sym.And(int64(le32(48))*ms == int64(msg.Duration), le64(56)*ms == int64(msg.Expiration)), "a duration is wrong")
	sym.Assert(sym.And(int64(le32(64))*ms == int64(msg.LeaseSuspendDuration), int64(le32(68))*ms == int64(msg.ArbitrationDuration)), "a duration is wrong")
	sym.Assert(sym.Iff(data[72] == 1, msg.IsTwoWayTermination), "the termination flag is wrong")
}

func verifItoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return verifItoa(n/10) + string([]byte{byte('0' + n%10)})
}

//verif:harness prop=C27 budget=90 tbudget=300 bound="the messages of VerifLayout, ports 0, 1, 80, 1025, 65535; with up to 12 bytes after the message (an extension) or none"
func VerifDecode() {
	m, msg, _ := verifMessage()
	if m.Port != 443 {
		m.Port = []uint16{0, 1, 80, 1025, 65535}[sym.Choose("ports", 5)]
	}
	data, err := m.marshal(msg)
	sym.Assert(err == nil, "encoding a lease message fails")
	data = append(data, sym.Bytes("ext", 4*sym.Choose("extlen", 4))...)
	before := append([]byte(nil), data...)
	got, err := unmarshal(data)
	sym.Assert(err == nil, "decoding an encoded lease message fails")
	sym.Assert(bytes.Equal(before[:8], data[:8]), "decoding changes the data")
	sym.Assert(got.Type == msg.Type, "the type changed")
	sym.Assert(got.LeaseInstance == msg.LeaseInstance && got.RemoteLeaseAgentInstance == msg.RemoteLeaseAgentInstance, "an instance changed")
	sym.Assert(sym.And(got.Duration == msg.Duration, got.Expiration == msg.Expiration, got.LeaseSuspendDuration == msg.LeaseSuspendDuration, got.ArbitrationDuration == msg.ArbitrationDuration), "a duration changed")
	sym.Assert(sym.Iff(got.IsTwoWayTermination, msg.IsTwoWayTermination), "the termination flag changed")
	sym.Assert(got.MessageListenEndpoint == m.Address+":"+verifItoa(int(m.Port)), "the listen endpoint changed")
}
