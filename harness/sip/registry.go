// Code generated by symgo; DO NOT EDIT.

package sip

// All lists the harnesses for native replay.
var All = map[string]func(){
	"H_S01_states": H_S01_states,
}
