package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"strings"
	"unicode/utf16"
)

// Independent encoder / decoder of the webwire protocol (see the protocol
// documentation), it shares no code with the library

func lab(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%d#%08x", len(b), crc32.ChecksumIEEE(b))
}

func identBytes(id string) []byte {
	b := make([]byte, 8)
	copy(b, id)
	return b
}

// payloadBytes builds the payload of the given text in the given encoding
func payloadBytes(enc, text string, padTo int) []byte {
	var b []byte
	if enc == "utf16" {
		for _, u := range utf16.Encode([]rune(text)) {
			b = append(b, byte(u), byte(u>>8))
		}
	} else {
		b = []byte(text)
	}
	for len(b) < padTo {
		b = append(b, byte('a'+len(b)%26))
	}
	return b
}

func (m *MsgDef) payload() []byte { return payloadBytes(m.Enc, m.P, m.PLen) }

func encIdx(enc string) byte {
	switch enc {
	case "utf8":
		return 1
	case "utf16":
		return 2
	}
	return 0
}

var encNames = []string{"bin", "utf8", "utf16"}

// wire encodes the message
func (m *MsgDef) wire() []byte {
	if m.Raw != "" || m.K == "bad" || m.K == "srv" {
		b, err := hex.DecodeString(m.Raw)
		if err != nil {
			panic(err)
		}
		return b
	}
	var b []byte
	switch m.K {
	case "hb":
		return []byte{33}
	case "close":
		return append([]byte{31}, identBytes(m.ID)...)
	case "restore":
		b = append([]byte{32}, identBytes(m.ID)...)
		return append(b, m.Key...)
	case "sig":
		b = []byte{63 + encIdx(m.Enc)}
	case "req":
		b = append([]byte{127 + encIdx(m.Enc)}, identBytes(m.ID)...)
	default:
		panic("unknown kind " + m.K)
	}
	b = append(b, byte(len(m.N)))
	b = append(b, m.N...)
	if m.Enc == "utf16" && len(b)%2 != 0 {
		b = append(b, 0)
	}
	return append(b, m.payload()...)
}

// decode decodes a message sent by the server
func decode(b []byte) map[string]any {
	bad := func(why string) map[string]any {
		return map[string]any{"t": "?", "raw": why + " " + lab(b)}
	}
	if len(b) < 1 {
		return bad("empty")
	}
	id := func() string {
		return strings.TrimRight(string(b[1:9]), "\x00")
	}
	switch b[0] {
	case 23:
		if len(b) < 11 {
			return bad("short")
		}
		return map[string]any{
			"t":     "conf",
			"major": int(b[1]), "minor": int(b[2]),
			"rt":  int(binary.LittleEndian.Uint32(b[3:7])),
			"buf": int(binary.LittleEndian.Uint32(b[7:11])),
			"sub": string(b[11:]),
		}
	case 21:
		return map[string]any{"t": "created", "raw": string(b[1:])}
	case 22:
		if len(b) != 1 {
			return bad("long")
		}
		return map[string]any{"t": "closed"}
	case 1, 2, 3, 4, 5:
		if len(b) != 9 {
			return bad("len")
		}
		t := []string{"", "shutdown", "internal", "notfound", "max", "disabled"}[b[0]]
		return map[string]any{"t": t, "id": id()}
	case 0:
		if len(b) < 11 || len(b) < 10+int(b[9]) || b[9] == 0 {
			return bad("short")
		}
		n := int(b[9])
		return map[string]any{
			"t": "err", "id": id(),
			"code": lab(b[10 : 10+n]), "x": lab(b[10+n:]),
		}
	case 191, 192:
		if len(b) < 9 {
			return bad("short")
		}
		return map[string]any{
			"t": "reply", "id": id(), "enc": encNames[b[0]-191],
			"p": lab(b[9:]), "raw": b[9:],
		}
	case 193:
		if len(b) < 10 || len(b)%2 != 0 {
			return bad("short")
		}
		return map[string]any{
			"t": "reply", "id": id(), "enc": "utf16",
			"p": lab(b[10:]), "raw": b[10:],
		}
	case 63, 64, 65:
		if len(b) < 2 || len(b) < 2+int(b[1]) {
			return bad("short")
		}
		n := 2 + int(b[1])
		name := b[2:n]
		if b[0] == 65 && n%2 != 0 {
			n++
		}
		if n > len(b) {
			return bad("short")
		}
		return map[string]any{
			"t": "sig", "enc": encNames[b[0]-63],
			"n": string(name), "p": lab(b[n:]),
		}
	}
	return bad("type")
}

func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return string(b)
}
