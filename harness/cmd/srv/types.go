package main

// Scenario is one driver program: an environment behaviour generated from the
// specification (or written by hand) to be replayed against the real server
type Scenario struct {
	ID    string   `json:"id"`
	Cfg   Cfg      `json:"cfg"`
	Conns []ConDef `json:"conns"`
	Msgs  []MsgDef `json:"msgs"`
	Ops   []OpDef  `json:"ops"`
	Gates []string `json:"gates"`
	Steps [][]any  `json:"steps"`

	Gens    []string          `json:"gens"`    // keys, "!" panics
	Store   []string          `json:"store"`   // initially stored sessions
	Lookup  map[string]string `json:"lookup"`  // key -> err | nil | found | bad | big
	OnClose map[string]string `json:"onclose"` // key -> err | panic
	OnCreat string            `json:"oncreat"` // err
	NoEnd   bool              `json:"noend"`   // no final loss of connections

	// Schedule exploration
	Explore Explore `json:"explore"`
	GC      bool    `json:"gc"`
}

// Explore defines the schedules to be tried
type Explore struct {
	Single int     `json:"single"` // max number of single-park schedules
	Double int     `json:"double"` // number of random double-park schedules
	Noise  int     `json:"noise"`  // number of random noise schedules
	Seed   int64   `json:"seed"`
	Plan   []Sched `json:"plan"` // exact schedules (replay)
}

// Sched is one schedule
type Sched struct {
	Parks [][2]int `json:"parks"`
	Noise float64  `json:"noise"`
	Seed  int64    `json:"seed"`
}

type Cfg struct {
	Sess bool   `json:"sess"`
	Max  int    `json:"max"`
	Buf  int    `json:"buf"`
	RT   int    `json:"rt"` // ms
	Sub  string `json:"sub"`
}

type ConDef struct {
	Lim int `json:"lim"`
}

type MsgDef struct {
	C    int    `json:"c"`
	K    string `json:"k"` // req sig restore close hb srv bad
	ID   string `json:"id"`
	Enc  string `json:"enc"` // bin utf8 utf16
	N    string `json:"n"`
	P    string `json:"p"`
	PLen int    `json:"plen"` // pad the payload to this length
	Key  string `json:"key"`
	Raw  string `json:"raw"` // hex, for bad and srv
	Auto bool   `json:"auto"`
	Out  OutDef `json:"out"`
}

// OutDef is the scripted outcome of a request handler
type OutDef struct {
	K    string `json:"k"` // ok err perr nilperr other special
	Enc  string `json:"enc"`
	P    string `json:"p"`
	PLen int    `json:"plen"`
	Code string `json:"code"`
	CLen int    `json:"clen"`
	M    string `json:"m"`
	MLen int    `json:"mlen"`
}

type OpDef struct {
	K    string `json:"k"` // close shutdown create cclose sclose signal
	C    int    `json:"c"`
	Key  string `json:"key"`
	Via  int    `json:"via"`
	Info int    `json:"info"`
	N    string `json:"n"`
	P    string `json:"p"`
	Enc  string `json:"enc"`
	PLen int    `json:"plen"`
}
