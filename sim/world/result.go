package world

// RunResult is what one run produced.
type RunResult struct {
	Index      int              `json:"index"`
	Name       string           `json:"name"`
	Outcome    string           `json:"outcome"`
	SimMs      int64            `json:"sim_ms"`
	Violations []Violation      `json:"violations,omitempty"`
	Faults     map[string]int   `json:"faults,omitempty"`
	Probes     map[string]int   `json:"probes,omitempty"`
	Digest     uint64           `json:"digest"`
	Inter      uint64           `json:"inter"`
	Yields     uint64           `json:"yields"`
	Switches   uint64           `json:"switches"`
	Requests   int              `json:"requests"`
	Conns      int              `json:"conns"`
	Calls      int              `json:"calls"`
	OK         int              `json:"ok"`
	Failed     int              `json:"failed"`
	Commits    int              `json:"commits"`
	Log        []string         `json:"log,omitempty"`
	Preempt    []uint64         `json:"preempt,omitempty"`
	Choice     map[uint64]int   `json:"choice,omitempty"`
	Stall      map[uint64]int64 `json:"stall,omitempty"`
	Sample     string           `json:"sample,omitempty"`
}
