// Code generated by symgo; DO NOT EDIT.

package core

// All lists the harnesses for native replay.
var All = map[string]func(){
	"H_C01_chars": H_C01_chars,
	"H_C01_history": H_C01_history,
	"H_C01_keyword": H_C01_keyword,
	"H_C01_lines": H_C01_lines,
	"H_C01_match": H_C01_match,
	"H_C01_peek2": H_C01_peek2,
	"H_C01_token": H_C01_token,
	"H_C02_comment": H_C02_comment,
	"H_C02_delims": H_C02_delims,
	"H_C02_namevalue": H_C02_namevalue,
	"H_C02_number": H_C02_number,
	"H_C02_quoted": H_C02_quoted,
	"H_C02_until": H_C02_until,
	"H_C03_host": H_C03_host,
	"H_C03_hostport": H_C03_hostport,
	"H_C03_lookup": H_C03_lookup,
	"H_C03_parse": H_C03_parse,
	"H_C04_history": H_C04_history,
	"H_C04_pair": H_C04_pair,
}
