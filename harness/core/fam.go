package core

// Recursive types.
type (
	RP struct {
		N int
		P *RP
	}
	RS struct {
		N int
		S []RS
	}
	RM struct {
		N int
		M map[string]RM
	}
	RPS struct {
		N int
		P []*RPS
	}
	RMP struct {
		N int
		M map[string]*RMP
	}
	RMS struct {
		N int
		M map[string][]RMS
	}
	RSM struct {
		N int
		M []map[string]RSM
	}
	RAll struct {
		N int
		P *RAll
		S []RAll
		M map[string]RAll
		T string
	}
	RIn struct {
		A string
		X struct {
			B int
			R *RIn
			C string
		}
		D int
	}
	RMut struct {
		N int
		B *RMutB
		Z string
	}
	RMutB struct {
		A *RMut
		L []RMut
		S string
	}
	RArr struct {
		A [2]*RArr
		N int
	}
	RPP struct {
		P **RPP
		N int
	}
	RMI struct {
		M map[int]RMI
		N string
	}
	RAny struct {
		V any
		L []RAny
		K map[string]*RAny
	}
	RTree struct {
		Left  *RTree `json:"left"`
		Val   string `json:"val"`
		Right *RTree `json:"right"`
		Tags  []string
	}
	RSq struct {
		S [][]RSq
		N int8 `json:",string"`
	}
	RArs struct {
		A [2]RArsE
		N int
	}
	RArsE struct {
		S []RArs
		X bool
	}
	// TUK.. variants of named types
	NStr  string
	NInt  int32
	NBool bool
	NSl   []NInt
	NMap  map[NStr]NInt
	NArr  [2]NStr
	NF32  float32
	// Recursive fields with the string option, which doesn't apply to them.
	QP struct {
		N int
		P *QP `json:",string"`
	}
	QS struct {
		S []QS `json:",string"`
	}
	QM struct {
		A string
		M map[string]QM `json:"m,string"`
	}
	QMut struct {
		B *QMutB
		N int `json:",string"`
	}
	QMutB struct {
		X []QMut `json:",string"`
	}
	// Recursive types whose structs have no name.
	XM map[string]struct {
		X XM
		N int
	}
	XS []struct {
		N string
		A XS
	}
	XP *struct {
		A XP
		B int
	}
	XA struct {
		A [2]struct{ B []XA }
		C map[string]*struct{ D *XA }
	}
	// Infinite types without structs aren't supported.
	InfS []InfS
	InfM map[string]InfM
	InfP *InfP
	InfA [2]*InfA
	InfX []map[string]*InfX
)
