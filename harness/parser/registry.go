// Code generated by symgo; DO NOT EDIT.

package parser

// All lists the harnesses for native replay.
var All = map[string]func(){
	"H_P01_accept": H_P01_accept,
	"H_P01_addr": H_P01_addr,
	"H_P01_auth": H_P01_auth,
	"H_P01_authinfo": H_P01_authinfo,
	"H_P01_contact": H_P01_contact,
	"H_P01_cseq": H_P01_cseq,
	"H_P01_date": H_P01_date,
	"H_P01_encoding": H_P01_encoding,
	"H_P01_from": H_P01_from,
	"H_P01_info": H_P01_info,
	"H_P01_language": H_P01_language,
	"H_P01_line": H_P01_line,
	"H_P01_numbers": H_P01_numbers,
	"H_P01_retry": H_P01_retry,
	"H_P01_route": H_P01_route,
	"H_P01_text": H_P01_text,
	"H_P01_timestamp": H_P01_timestamp,
	"H_P01_tokens": H_P01_tokens,
	"H_P01_typed": H_P01_typed,
	"H_P01_value": H_P01_value,
	"H_P01_via": H_P01_via,
	"H_P01_warning": H_P01_warning,
	"H_P01_wildcard": H_P01_wildcard,
	"H_P02_names": H_P02_names,
	"H_P02_other": H_P02_other,
	"H_P02_value": H_P02_value,
	"H_P03_addr": H_P03_addr,
	"H_P03_after": H_P03_after,
	"H_P03_comments": H_P03_comments,
	"H_P03_contact": H_P03_contact,
	"H_P03_routes": H_P03_routes,
	"H_P03_tag": H_P03_tag,
	"H_P03_transport": H_P03_transport,
	"H_P03_via": H_P03_via,
	"H_P03_viaparams": H_P03_viaparams,
	"H_P03_vias": H_P03_vias,
	"H_P04_any": H_P04_any,
	"H_P04_cut": H_P04_cut,
	"H_P04_listener": H_P04_listener,
	"H_P04_listener_first": H_P04_listener_first,
	"H_P04_window": H_P04_window,
	"H_P05_lines": H_P05_lines,
	"H_P05_lowercase": H_P05_lowercase,
	"H_P05_window": H_P05_window,
	"H_P06_absent": H_P06_absent,
	"H_P06_again": H_P06_again,
	"H_P06_body": H_P06_body,
	"H_P06_buffer": H_P06_buffer,
	"H_P06_large": H_P06_large,
	"H_P07_cseq": H_P07_cseq,
	"H_P07_cseqs": H_P07_cseqs,
	"H_P07_first": H_P07_first,
	"H_P07_lowercase": H_P07_lowercase,
	"H_P07_request": H_P07_request,
	"H_P07_status": H_P07_status,
	"H_P07_version": H_P07_version,
	"H_P08_eol": H_P08_eol,
	"H_P08_fold": H_P08_fold,
	"H_P08_foldtext": H_P08_foldtext,
	"H_P09_cseq": H_P09_cseq,
	"H_P09_large": H_P09_large,
	"H_P09_mime": H_P09_mime,
	"H_P09_other": H_P09_other,
	"H_P09_rack": H_P09_rack,
	"H_P09_remark": H_P09_remark,
	"H_P09_retry": H_P09_retry,
	"H_P09_signs": H_P09_signs,
	"H_P09_small": H_P09_small,
	"H_P09_subscription": H_P09_subscription,
	"H_P09_timestamp": H_P09_timestamp,
	"H_P10_challenges": H_P10_challenges,
	"H_P10_digest": H_P10_digest,
	"H_P10_info": H_P10_info,
	"H_P10_params": H_P10_params,
	"H_P10_scheme": H_P10_scheme,
	"H_P10_three": H_P10_three,
	"H_P10_uri": H_P10_uri,
	"H_P11_accept": H_P11_accept,
	"H_P11_acceptparams": H_P11_acceptparams,
	"H_P11_callid": H_P11_callid,
	"H_P11_callids": H_P11_callids,
	"H_P11_date": H_P11_date,
	"H_P11_event": H_P11_event,
	"H_P11_infos": H_P11_infos,
	"H_P11_known": H_P11_known,
	"H_P11_media": H_P11_media,
	"H_P11_products": H_P11_products,
	"H_P11_reason": H_P11_reason,
	"H_P11_text": H_P11_text,
	"H_P11_tokens": H_P11_tokens,
	"H_P11_warning": H_P11_warning,
	"H_P12_address": H_P12_address,
	"H_P12_again": H_P12_again,
	"H_P12_anyaddress": H_P12_anyaddress,
	"H_P12_fold": H_P12_fold,
	"H_P12_folds": H_P12_folds,
	"H_P12_header": H_P12_header,
	"H_P12_host": H_P12_host,
	"H_P12_lexer": H_P12_lexer,
	"H_P12_mixed": H_P12_mixed,
	"H_P12_request": H_P12_request,
	"H_P12_status": H_P12_status,
}
