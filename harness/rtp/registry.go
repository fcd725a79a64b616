// Code generated by symgo; DO NOT EDIT.

package rtp

// All lists the harnesses for native replay.
var All = map[string]func(){
	"H_R01_counts": H_R01_counts,
	"H_R01_roundtrip": H_R01_roundtrip,
	"H_R02_layout": H_R02_layout,
	"H_R02_longext": H_R02_longext,
	"H_R03_header": H_R03_header,
	"H_R03_parse": H_R03_parse,
	"H_R04_app": H_R04_app,
	"H_R04_bye": H_R04_bye,
	"H_R04_generic": H_R04_generic,
	"H_R05_addsub": H_R05_addsub,
	"H_R05_order": H_R05_order,
	"H_R05_sub": H_R05_sub,
	"H_R05_trans": H_R05_trans,
	"H_R06_float": H_R06_float,
	"H_R06_frac": H_R06_frac,
	"H_R06_fractions": H_R06_fractions,
	"H_R06_mono": H_R06_mono,
	"H_R06_sec": H_R06_sec,
	"H_R07_lcg": H_R07_lcg,
	"H_R07_range": H_R07_range,
	"H_R07_same": H_R07_same,
	"H_R08_clone": H_R08_clone,
	"H_R08_equal": H_R08_equal,
	"H_R08_history": H_R08_history,
	"H_R09_info": H_R09_info,
	"H_R09_params": H_R09_params,
	"H_R09_raw": H_R09_raw,
	"H_R09_text": H_R09_text,
	"H_R09_time": H_R09_time,
	"H_R09_type": H_R09_type,
}
