// Code generated by symgo; DO NOT EDIT.

package header

// All lists the harnesses for native replay.
var All = map[string]func(){
	"H_H01_fields": H_H01_fields,
	"H_H01_hops": H_H01_hops,
	"H_H01_pairs": H_H01_pairs,
	"H_H01_q": H_H01_q,
	"H_H01_text": H_H01_text,
	"H_H01_times": H_H01_times,
	"H_H02_history": H_H02_history,
	"H_H02_kinds": H_H02_kinds,
	"H_H02_names": H_H02_names,
	"H_H03_text": H_H03_text,
	"H_H04_lists": H_H04_lists,
	"H_H04_methods": H_H04_methods,
	"H_H05_via": H_H05_via,
	"H_H06_history": H_H06_history,
	"H_H06_info": H_H06_info,
	"H_H07_clone": H_H07_clone,
	"H_H07_contact": H_H07_contact,
	"H_H07_lists": H_H07_lists,
	"H_H08_callid": H_H08_callid,
	"H_H08_empty": H_H08_empty,
	"H_H08_parts": H_H08_parts,
	"H_H09_tags": H_H09_tags,
	"H_H10_request": H_H10_request,
	"H_H10_status": H_H10_status,
	"H_H11_match": H_H11_match,
	"H_H12_addresses": H_H12_addresses,
	"H_H12_first": H_H12_first,
	"H_H12_media": H_H12_media,
	"H_H12_parameters": H_H12_parameters,
	"H_H12_tokens": H_H12_tokens,
	"H_H13_challenge": H_H13_challenge,
	"H_H13_info": H_H13_info,
	"H_H13_products": H_H13_products,
	"H_H13_protocol": H_H13_protocol,
	"H_H13_retry": H_H13_retry,
}
