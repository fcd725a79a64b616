// Code generated by symgo; DO NOT EDIT.

package address

// All lists the harnesses for native replay.
var All = map[string]func(){
	"H_A01_authority": H_A01_authority,
	"H_A01_full": H_A01_full,
	"H_A01_headers": H_A01_headers,
	"H_A01_params": H_A01_params,
	"H_A02_any": H_A02_any,
	"H_A02_entry": H_A02_entry,
	"H_A02_generic": H_A02_generic,
	"H_A02_sip": H_A02_sip,
	"H_A02_sipuser": H_A02_sipuser,
	"H_A02_tel": H_A02_tel,
	"H_A03_any": H_A03_any,
	"H_A03_anyname": H_A03_anyname,
	"H_A03_name": H_A03_name,
	"H_A03_object": H_A03_object,
	"H_A03_spec": H_A03_spec,
	"H_A04_history": H_A04_history,
	"H_A04_parts": H_A04_parts,
	"H_A05_set": H_A05_set,
	"H_A05_tel": H_A05_tel,
	"H_A06_authority": H_A06_authority,
	"H_A06_number": H_A06_number,
	"H_A06_uri": H_A06_uri,
	"H_A06_user": H_A06_user,
}
