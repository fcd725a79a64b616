// Code generated by symgo; DO NOT EDIT.

package message

// All lists the harnesses for native replay.
var All = map[string]func(){
	"H_M01_apart": H_M01_apart,
	"H_M01_reason": H_M01_reason,
	"H_M01_response": H_M01_response,
	"H_M02_apart": H_M02_apart,
	"H_M02_request": H_M02_request,
	"H_M02_response": H_M02_response,
	"H_M03_history": H_M03_history,
	"H_M03_kinds": H_M03_kinds,
	"H_M03_longer": H_M03_longer,
	"H_M04_content": H_M04_content,
	"H_M05_branch": H_M05_branch,
	"H_M05_dialog": H_M05_dialog,
	"H_M05_differ": H_M05_differ,
	"H_M05_hex": H_M05_hex,
	"H_M05_old": H_M05_old,
	"H_M05_reduce": H_M05_reduce,
	"H_M06_final": H_M06_final,
	"H_M06_reason": H_M06_reason,
	"H_M07_check": H_M07_check,
	"H_M08_bare": H_M08_bare,
	"H_M08_defaults": H_M08_defaults,
	"H_M08_kind": H_M08_kind,
	"H_M08_line": H_M08_line,
	"H_M08_lists": H_M08_lists,
	"H_M08_named": H_M08_named,
	"H_M08_tags": H_M08_tags,
	"H_M08_via": H_M08_via,
	"H_M09_request": H_M09_request,
	"H_M09_response": H_M09_response,
	"H_M10_headers": H_M10_headers,
	"H_M10_named": H_M10_named,
	"H_M10_request": H_M10_request,
	"H_M10_response": H_M10_response,
}
