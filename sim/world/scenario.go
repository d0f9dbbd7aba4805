package world

import (
	"net"
	"strconv"

	"verif.local/sim/simrt"
)

// Scenario is everything that determines one run: it is what a replay file holds.
type Scenario struct {
	Prop    string       `json:"prop"`
	Name    string       `json:"name"`
	Seed    uint64       `json:"seed"`
	Servers []*ServerCfg `json:"servers"`
	Net     NetCfg       `json:"net"`
	Client  ClientCfg    `json:"client"`
	// Others are further clients of the same process, which open plain connections.
	Others  []*ClientCfg   `json:"others,omitempty"`
	Tasks   []*TaskCfg     `json:"tasks"`
	Faults  []*Fault       `json:"faults,omitempty"`
	Sched   simrt.Schedule `json:"sched"`
	MaxY    uint64         `json:"max_y"`
	Epi     Epilogue       `json:"epilogue"`
	Horizon int64          `json:"horizon_ms"`
	MemMax  int64          `json:"mem_max,omitempty"`
	// NoTiming: the schedule stalls tasks, so durations mean nothing.
	NoTiming bool `json:"no_timing,omitempty"`
}

// Addr is where the server listens.
func (c *ServerCfg) Addr() string { return net.JoinHostPort(c.Host, strconv.Itoa(c.Port)) }

type ServerCfg struct {
	Host     string   `json:"host"`
	Port     int      `json:"port"`
	Versions []int    `json:"versions"`
	TLS      string   `json:"tls,omitempty"` // "", good, wronghost, selfsigned, expired, mutual
	Role     string   `json:"role,omitempty"`
	DBs      []string `json:"dbs,omitempty"`
	Chunk    string   `json:"chunk,omitempty"` // reply chunking: "", small, rand, max
	ProcUs   int      `json:"proc_us,omitempty"`
	Hidden   bool     `json:"hidden,omitempty"` // not part of the cluster overview
}

type NetCfg struct {
	LatMinUs int    `json:"lat_min_us"`
	LatMaxUs int    `json:"lat_max_us"`
	Seg      string `json:"seg,omitempty"` // whole, mss, rand, bytes
	NoCoal   bool   `json:"no_coalesce,omitempty"`
	GapMs    int    `json:"gap_ms,omitempty"` // largest extra delay before a reply segment
	PGap     int    `json:"p_gap,omitempty"`  // percent of segments delayed
	ReqGapMs int    `json:"req_gap_ms,omitempty"`
	SndBuf   int    `json:"sndbuf,omitempty"`
}

type ClientCfg struct {
	Kind      string `json:"kind"` // driver, pool, routed
	Size      int    `json:"size,omitempty"`
	Via       string `json:"via"` // opts, url
	User      string `json:"user"`
	Pass      string `json:"pass"`
	TLS       bool   `json:"tls,omitempty"`
	CA        bool   `json:"ca,omitempty"`
	Cert      bool   `json:"cert,omitempty"`
	NoVerify  bool   `json:"no_verify,omitempty"`
	TimeoutMs int64  `json:"timeout_ms,omitempty"` // 0: library default
	Chunk     int    `json:"chunk,omitempty"`
	// Split says (by its bits and as a seed) how the configuration is spread
	// over options and connection string, and how it is written.
	Split uint64 `json:"split,omitempty"`
	// protocol versions the options allow; 0: no restriction
	Strict  int    `json:"strict,omitempty"`
	Greater int    `json:"greater,omitempty"`
	Less    int    `json:"less,omitempty"`
	Log     string `json:"log,omitempty"` // level of the log
	Srv     int    `json:"srv,omitempty"` // the server it connects to (Others only)
	// Wrong is a way in which the configuration makes no sense.
	Wrong string `json:"wrong,omitempty"`
}

// Timeout is the timeout in force.
func (c *ClientCfg) Timeout() int64 {
	if c.TimeoutMs > 0 {
		return c.TimeoutMs
	}
	return 60000
}

// Allows says whether the options allow a protocol version.
func (c *ClientCfg) Allows(v int) bool {
	return (c.Strict == 0 || v == c.Strict) && (c.Greater == 0 || v > c.Greater) && (c.Less == 0 || v < c.Less)
}

// ClientOf is the client an Open goes through.
func (s *Scenario) ClientOf(o *Op) *ClientCfg {
	if o != nil && o.Cl > 0 && o.Cl <= len(s.Others) {
		return s.Others[o.Cl-1]
	}
	return &s.Client
}

type TaskCfg struct {
	Name    string `json:"name"`
	StartMs int64  `json:"start_ms,omitempty"`
	Ops     []*Op  `json:"ops"`
}

// Op is one call a client task makes. C and T name connection and transaction slots.
type Op struct {
	Op   string `json:"op"`
	C    int    `json:"c"`
	T    int    `json:"t,omitempty"`
	Mode string `json:"mode,omitempty"`
	DB   string `json:"db,omitempty"`
	WDB  bool   `json:"wdb,omitempty"` // use the ...WithDb form
	Spec *Spec  `json:"spec,omitempty"`
	Ms   int64  `json:"ms,omitempty"`
	N    int    `json:"n,omitempty"`
	Cl   int    `json:"cl,omitempty"` // open: with which of the scenario's other clients (1..)
}

// Spec says what a statement does on the server.
type Spec struct {
	Tag    int    `json:"tag"`
	Exec   bool   `json:"exec,omitempty"` // issued with Exec rather than Query
	Write  bool   `json:"write,omitempty"`
	Seed   uint64 `json:"seed"`
	NPar   int    `json:"npar,omitempty"`
	Sz     int    `json:"sz,omitempty"`  // parameter size class
	Txt    int    `json:"txt,omitempty"` // extra statement text, bytes
	Rows   int    `json:"rows,omitempty"`
	Cols   int    `json:"cols,omitempty"`
	RSz    int    `json:"rsz,omitempty"`  // row value size class
	Uint   bool   `json:"uint,omitempty"` // a uint that no Bolt integer can hold
	Tmp    int    `json:"tmp,omitempty"`  // temporal and spatial parameters
	RTmp   bool   `json:"rtmp,omitempty"` // temporal and spatial values in rows
	Bad    bool   `json:"bad,omitempty"`  // has a parameter that cannot be encoded
	Fail   string `json:"fail,omitempty"`
	FailAt int    `json:"fail_at,omitempty"`
	Stats  int    `json:"stats,omitempty"`
	SlowMs int    `json:"slow_ms,omitempty"` // pause between batches of rows
}

// Fault is one injected fault with its trigger.
type Fault struct {
	AtMs  int64    `json:"at_ms,omitempty"`
	On    string   `json:"on,omitempty"` // event; empty: by time
	N     int      `json:"n,omitempty"`  // nth such event
	Srv   int      `json:"srv"`          // -1: any server
	Phase string   `json:"phase,omitempty"`
	Act   string   `json:"act"`
	DurMs int64    `json:"dur_ms,omitempty"`
	Arg   int64    `json:"arg,omitempty"`
	Str   string   `json:"str,omitempty"`
	Roles []string `json:"roles,omitempty"`

	fired bool
	seen  int
}

// Epilogue is what happens after the client tasks are done.
type Epilogue struct {
	Heal      bool  `json:"heal"`
	WaitMs    int64 `json:"wait_ms,omitempty"`
	Drain     bool  `json:"drain,omitempty"` // borrow the full configured number at once
	Check     bool  `json:"check,omitempty"` // run a statement on every connection still held
	ClosePool bool  `json:"close_pool,omitempty"`
	AfterMs   int64 `json:"after_ms,omitempty"` // time after the close during which nothing may happen
}
