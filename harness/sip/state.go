package sip

import (
	"github.com/use-go/gosips/sip"

	"verif/harness/sym"
)

type state interface {
	GetValue() int
	ToString() string
}

// H_S01_states: any two 64-bit values looked up as transaction state, dialog state or timeout.
func H_S01_states() {
	a, b := sym.Int(), sym.Int()
	var named []state
	var texts []string
	var find func(int) (state, error)
	switch sym.Choice(3) {
	case 0:
		named = []state{sip.TRANSACTIONSTATE_CALLING, sip.TRANSACTIONSTATE_TRYING, sip.TRANSACTIONSTATE_PROCEEDING, sip.TRANSACTIONSTATE_COMPLETED, sip.TRANSACTIONSTATE_CONFIRMED, sip.TRANSACTIONSTATE_TERMINATED}
		texts = []string{"Calling Transaction", "Trying Transaction", "Proceeding Transaction", "Completed Transaction", "Confirmed Transaction", "Terminated Transaction"}
		find = func(n int) (state, error) {
			s, err := sip.GetTransactionState(n)
			if s == nil {
				return nil, err
			}
			return s, err
		}
	case 1:
		named = []state{sip.DIALOGSTATE_EARLY, sip.DIALOGSTATE_CONFIRMED, sip.DIALOGSTATE_COMPLETED, sip.DIALOGSTATE_TERMINATED}
		texts = []string{"Early Dialog", "Confirmed Dialog", "Completed Dialog", "Terminated Dialog"}
		find = func(n int) (state, error) {
			s, err := sip.GetDialogState(n)
			if s == nil {
				return nil, err
			}
			return s, err
		}
	case 2:
		named = []state{sip.TIMEOUT_RETRANSMIT, sip.TIMEOUT_TRANSACTION}
		texts = []string{"Retransmission Timeout", "Transaction Timeout"}
		find = func(n int) (state, error) {
			s, err := sip.GetTimeout(n)
			if s == nil {
				return nil, err
			}
			return s, err
		}
	}
	s, err := find(a)
	ok := sym.And(a >= 0, a < len(named))
	sym.Assert((err == nil) == ok && (s != nil) == ok, "a value outside the states is refused")
	if err == nil {
		sym.Assert(s.GetValue() == a && s == named[a] && s.ToString() == texts[a], "a value is the state of that name")
		t, err := find(b)
		sym.Assert(err != nil || (t == s) == (a == b), "each value is a state of its own")
	}
}
