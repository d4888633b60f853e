package main

// Session is a sequence of commands executed by one process, and the points at
// which the process switches between concurrent sequences.
type Session struct {
	Cmds     []Cmd        `json:"cmds,omitempty"`
	Switches []LaneSwitch `json:"switches,omitempty"`
}
