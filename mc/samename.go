package main

// Code generated for check C13: pairs of types that print the same name and differ in kind.

import "reflect"

// sameNamed gives every ordered pair of kinds under a name of its own.
func sameNamed() (out [][2]reflect.Type) {
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N1 struct{ A int }
		return reflect.TypeOf((*N1)(nil)).Elem()
	}(), func() reflect.Type {
		type N1 struct{ SameJSON }
		return reflect.TypeOf((*N1)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N2 struct{ A int }
		return reflect.TypeOf((*N2)(nil)).Elem()
	}(), func() reflect.Type {
		type N2 struct{ SameText }
		return reflect.TypeOf((*N2)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N3 struct{ A int }
		return reflect.TypeOf((*N3)(nil)).Elem()
	}(), func() reflect.Type {
		type N3 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N3)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N4 struct{ A int }
		return reflect.TypeOf((*N4)(nil)).Elem()
	}(), func() reflect.Type {
		type N4 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N4)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N5 struct{ A int }
		return reflect.TypeOf((*N5)(nil)).Elem()
	}(), func() reflect.Type {
		type N5 int64
		return reflect.TypeOf((*N5)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N6 struct{ A int }
		return reflect.TypeOf((*N6)(nil)).Elem()
	}(), func() reflect.Type {
		type N6 string
		return reflect.TypeOf((*N6)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N7 struct{ A int }
		return reflect.TypeOf((*N7)(nil)).Elem()
	}(), func() reflect.Type {
		type N7 []byte
		return reflect.TypeOf((*N7)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N8 struct{ A int }
		return reflect.TypeOf((*N8)(nil)).Elem()
	}(), func() reflect.Type {
		type N8 [2]byte
		return reflect.TypeOf((*N8)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N9 struct{ A int }
		return reflect.TypeOf((*N9)(nil)).Elem()
	}(), func() reflect.Type {
		type N9 map[string]any
		return reflect.TypeOf((*N9)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N10 struct{ A int }
		return reflect.TypeOf((*N10)(nil)).Elem()
	}(), func() reflect.Type {
		type N10 struct{ *SamePtr }
		return reflect.TypeOf((*N10)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N11 struct{ SameJSON }
		return reflect.TypeOf((*N11)(nil)).Elem()
	}(), func() reflect.Type {
		type N11 struct{ A int }
		return reflect.TypeOf((*N11)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N13 struct{ SameJSON }
		return reflect.TypeOf((*N13)(nil)).Elem()
	}(), func() reflect.Type {
		type N13 struct{ SameText }
		return reflect.TypeOf((*N13)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N14 struct{ SameJSON }
		return reflect.TypeOf((*N14)(nil)).Elem()
	}(), func() reflect.Type {
		type N14 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N14)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N15 struct{ SameJSON }
		return reflect.TypeOf((*N15)(nil)).Elem()
	}(), func() reflect.Type {
		type N15 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N15)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N16 struct{ SameJSON }
		return reflect.TypeOf((*N16)(nil)).Elem()
	}(), func() reflect.Type {
		type N16 int64
		return reflect.TypeOf((*N16)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N17 struct{ SameJSON }
		return reflect.TypeOf((*N17)(nil)).Elem()
	}(), func() reflect.Type {
		type N17 string
		return reflect.TypeOf((*N17)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N18 struct{ SameJSON }
		return reflect.TypeOf((*N18)(nil)).Elem()
	}(), func() reflect.Type {
		type N18 []byte
		return reflect.TypeOf((*N18)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N19 struct{ SameJSON }
		return reflect.TypeOf((*N19)(nil)).Elem()
	}(), func() reflect.Type {
		type N19 [2]byte
		return reflect.TypeOf((*N19)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N20 struct{ SameJSON }
		return reflect.TypeOf((*N20)(nil)).Elem()
	}(), func() reflect.Type {
		type N20 map[string]any
		return reflect.TypeOf((*N20)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N21 struct{ SameJSON }
		return reflect.TypeOf((*N21)(nil)).Elem()
	}(), func() reflect.Type {
		type N21 struct{ *SamePtr }
		return reflect.TypeOf((*N21)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N22 struct{ SameText }
		return reflect.TypeOf((*N22)(nil)).Elem()
	}(), func() reflect.Type {
		type N22 struct{ A int }
		return reflect.TypeOf((*N22)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N23 struct{ SameText }
		return reflect.TypeOf((*N23)(nil)).Elem()
	}(), func() reflect.Type {
		type N23 struct{ SameJSON }
		return reflect.TypeOf((*N23)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N25 struct{ SameText }
		return reflect.TypeOf((*N25)(nil)).Elem()
	}(), func() reflect.Type {
		type N25 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N25)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N26 struct{ SameText }
		return reflect.TypeOf((*N26)(nil)).Elem()
	}(), func() reflect.Type {
		type N26 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N26)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N27 struct{ SameText }
		return reflect.TypeOf((*N27)(nil)).Elem()
	}(), func() reflect.Type {
		type N27 int64
		return reflect.TypeOf((*N27)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N28 struct{ SameText }
		return reflect.TypeOf((*N28)(nil)).Elem()
	}(), func() reflect.Type {
		type N28 string
		return reflect.TypeOf((*N28)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N29 struct{ SameText }
		return reflect.TypeOf((*N29)(nil)).Elem()
	}(), func() reflect.Type {
		type N29 []byte
		return reflect.TypeOf((*N29)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N30 struct{ SameText }
		return reflect.TypeOf((*N30)(nil)).Elem()
	}(), func() reflect.Type {
		type N30 [2]byte
		return reflect.TypeOf((*N30)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N31 struct{ SameText }
		return reflect.TypeOf((*N31)(nil)).Elem()
	}(), func() reflect.Type {
		type N31 map[string]any
		return reflect.TypeOf((*N31)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N32 struct{ SameText }
		return reflect.TypeOf((*N32)(nil)).Elem()
	}(), func() reflect.Type {
		type N32 struct{ *SamePtr }
		return reflect.TypeOf((*N32)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N33 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N33)(nil)).Elem()
	}(), func() reflect.Type {
		type N33 struct{ A int }
		return reflect.TypeOf((*N33)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N34 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N34)(nil)).Elem()
	}(), func() reflect.Type {
		type N34 struct{ SameJSON }
		return reflect.TypeOf((*N34)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N35 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N35)(nil)).Elem()
	}(), func() reflect.Type {
		type N35 struct{ SameText }
		return reflect.TypeOf((*N35)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N37 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N37)(nil)).Elem()
	}(), func() reflect.Type {
		type N37 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N37)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N38 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N38)(nil)).Elem()
	}(), func() reflect.Type {
		type N38 int64
		return reflect.TypeOf((*N38)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N39 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N39)(nil)).Elem()
	}(), func() reflect.Type {
		type N39 string
		return reflect.TypeOf((*N39)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N40 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N40)(nil)).Elem()
	}(), func() reflect.Type {
		type N40 []byte
		return reflect.TypeOf((*N40)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N41 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N41)(nil)).Elem()
	}(), func() reflect.Type {
		type N41 [2]byte
		return reflect.TypeOf((*N41)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N42 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N42)(nil)).Elem()
	}(), func() reflect.Type {
		type N42 map[string]any
		return reflect.TypeOf((*N42)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N43 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N43)(nil)).Elem()
	}(), func() reflect.Type {
		type N43 struct{ *SamePtr }
		return reflect.TypeOf((*N43)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N44 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N44)(nil)).Elem()
	}(), func() reflect.Type {
		type N44 struct{ A int }
		return reflect.TypeOf((*N44)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N45 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N45)(nil)).Elem()
	}(), func() reflect.Type {
		type N45 struct{ SameJSON }
		return reflect.TypeOf((*N45)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N46 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N46)(nil)).Elem()
	}(), func() reflect.Type {
		type N46 struct{ SameText }
		return reflect.TypeOf((*N46)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N47 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N47)(nil)).Elem()
	}(), func() reflect.Type {
		type N47 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N47)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N49 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N49)(nil)).Elem()
	}(), func() reflect.Type {
		type N49 int64
		return reflect.TypeOf((*N49)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N50 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N50)(nil)).Elem()
	}(), func() reflect.Type {
		type N50 string
		return reflect.TypeOf((*N50)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N51 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N51)(nil)).Elem()
	}(), func() reflect.Type {
		type N51 []byte
		return reflect.TypeOf((*N51)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N52 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N52)(nil)).Elem()
	}(), func() reflect.Type {
		type N52 [2]byte
		return reflect.TypeOf((*N52)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N53 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N53)(nil)).Elem()
	}(), func() reflect.Type {
		type N53 map[string]any
		return reflect.TypeOf((*N53)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N54 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N54)(nil)).Elem()
	}(), func() reflect.Type {
		type N54 struct{ *SamePtr }
		return reflect.TypeOf((*N54)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N55 int64
		return reflect.TypeOf((*N55)(nil)).Elem()
	}(), func() reflect.Type {
		type N55 struct{ A int }
		return reflect.TypeOf((*N55)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N56 int64
		return reflect.TypeOf((*N56)(nil)).Elem()
	}(), func() reflect.Type {
		type N56 struct{ SameJSON }
		return reflect.TypeOf((*N56)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N57 int64
		return reflect.TypeOf((*N57)(nil)).Elem()
	}(), func() reflect.Type {
		type N57 struct{ SameText }
		return reflect.TypeOf((*N57)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N58 int64
		return reflect.TypeOf((*N58)(nil)).Elem()
	}(), func() reflect.Type {
		type N58 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N58)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N59 int64
		return reflect.TypeOf((*N59)(nil)).Elem()
	}(), func() reflect.Type {
		type N59 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N59)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N61 int64
		return reflect.TypeOf((*N61)(nil)).Elem()
	}(), func() reflect.Type {
		type N61 string
		return reflect.TypeOf((*N61)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N62 int64
		return reflect.TypeOf((*N62)(nil)).Elem()
	}(), func() reflect.Type {
		type N62 []byte
		return reflect.TypeOf((*N62)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N63 int64
		return reflect.TypeOf((*N63)(nil)).Elem()
	}(), func() reflect.Type {
		type N63 [2]byte
		return reflect.TypeOf((*N63)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N64 int64
		return reflect.TypeOf((*N64)(nil)).Elem()
	}(), func() reflect.Type {
		type N64 map[string]any
		return reflect.TypeOf((*N64)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N65 int64
		return reflect.TypeOf((*N65)(nil)).Elem()
	}(), func() reflect.Type {
		type N65 struct{ *SamePtr }
		return reflect.TypeOf((*N65)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N66 string
		return reflect.TypeOf((*N66)(nil)).Elem()
	}(), func() reflect.Type {
		type N66 struct{ A int }
		return reflect.TypeOf((*N66)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N67 string
		return reflect.TypeOf((*N67)(nil)).Elem()
	}(), func() reflect.Type {
		type N67 struct{ SameJSON }
		return reflect.TypeOf((*N67)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N68 string
		return reflect.TypeOf((*N68)(nil)).Elem()
	}(), func() reflect.Type {
		type N68 struct{ SameText }
		return reflect.TypeOf((*N68)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N69 string
		return reflect.TypeOf((*N69)(nil)).Elem()
	}(), func() reflect.Type {
		type N69 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N69)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N70 string
		return reflect.TypeOf((*N70)(nil)).Elem()
	}(), func() reflect.Type {
		type N70 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N70)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N71 string
		return reflect.TypeOf((*N71)(nil)).Elem()
	}(), func() reflect.Type {
		type N71 int64
		return reflect.TypeOf((*N71)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N73 string
		return reflect.TypeOf((*N73)(nil)).Elem()
	}(), func() reflect.Type {
		type N73 []byte
		return reflect.TypeOf((*N73)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N74 string
		return reflect.TypeOf((*N74)(nil)).Elem()
	}(), func() reflect.Type {
		type N74 [2]byte
		return reflect.TypeOf((*N74)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N75 string
		return reflect.TypeOf((*N75)(nil)).Elem()
	}(), func() reflect.Type {
		type N75 map[string]any
		return reflect.TypeOf((*N75)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N76 string
		return reflect.TypeOf((*N76)(nil)).Elem()
	}(), func() reflect.Type {
		type N76 struct{ *SamePtr }
		return reflect.TypeOf((*N76)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N77 []byte
		return reflect.TypeOf((*N77)(nil)).Elem()
	}(), func() reflect.Type {
		type N77 struct{ A int }
		return reflect.TypeOf((*N77)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N78 []byte
		return reflect.TypeOf((*N78)(nil)).Elem()
	}(), func() reflect.Type {
		type N78 struct{ SameJSON }
		return reflect.TypeOf((*N78)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N79 []byte
		return reflect.TypeOf((*N79)(nil)).Elem()
	}(), func() reflect.Type {
		type N79 struct{ SameText }
		return reflect.TypeOf((*N79)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N80 []byte
		return reflect.TypeOf((*N80)(nil)).Elem()
	}(), func() reflect.Type {
		type N80 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N80)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N81 []byte
		return reflect.TypeOf((*N81)(nil)).Elem()
	}(), func() reflect.Type {
		type N81 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N81)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N82 []byte
		return reflect.TypeOf((*N82)(nil)).Elem()
	}(), func() reflect.Type {
		type N82 int64
		return reflect.TypeOf((*N82)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N83 []byte
		return reflect.TypeOf((*N83)(nil)).Elem()
	}(), func() reflect.Type {
		type N83 string
		return reflect.TypeOf((*N83)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N85 []byte
		return reflect.TypeOf((*N85)(nil)).Elem()
	}(), func() reflect.Type {
		type N85 [2]byte
		return reflect.TypeOf((*N85)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N86 []byte
		return reflect.TypeOf((*N86)(nil)).Elem()
	}(), func() reflect.Type {
		type N86 map[string]any
		return reflect.TypeOf((*N86)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N87 []byte
		return reflect.TypeOf((*N87)(nil)).Elem()
	}(), func() reflect.Type {
		type N87 struct{ *SamePtr }
		return reflect.TypeOf((*N87)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N88 [2]byte
		return reflect.TypeOf((*N88)(nil)).Elem()
	}(), func() reflect.Type {
		type N88 struct{ A int }
		return reflect.TypeOf((*N88)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N89 [2]byte
		return reflect.TypeOf((*N89)(nil)).Elem()
	}(), func() reflect.Type {
		type N89 struct{ SameJSON }
		return reflect.TypeOf((*N89)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N90 [2]byte
		return reflect.TypeOf((*N90)(nil)).Elem()
	}(), func() reflect.Type {
		type N90 struct{ SameText }
		return reflect.TypeOf((*N90)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N91 [2]byte
		return reflect.TypeOf((*N91)(nil)).Elem()
	}(), func() reflect.Type {
		type N91 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N91)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N92 [2]byte
		return reflect.TypeOf((*N92)(nil)).Elem()
	}(), func() reflect.Type {
		type N92 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N92)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N93 [2]byte
		return reflect.TypeOf((*N93)(nil)).Elem()
	}(), func() reflect.Type {
		type N93 int64
		return reflect.TypeOf((*N93)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N94 [2]byte
		return reflect.TypeOf((*N94)(nil)).Elem()
	}(), func() reflect.Type {
		type N94 string
		return reflect.TypeOf((*N94)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N95 [2]byte
		return reflect.TypeOf((*N95)(nil)).Elem()
	}(), func() reflect.Type {
		type N95 []byte
		return reflect.TypeOf((*N95)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N97 [2]byte
		return reflect.TypeOf((*N97)(nil)).Elem()
	}(), func() reflect.Type {
		type N97 map[string]any
		return reflect.TypeOf((*N97)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N98 [2]byte
		return reflect.TypeOf((*N98)(nil)).Elem()
	}(), func() reflect.Type {
		type N98 struct{ *SamePtr }
		return reflect.TypeOf((*N98)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N99 map[string]any
		return reflect.TypeOf((*N99)(nil)).Elem()
	}(), func() reflect.Type {
		type N99 struct{ A int }
		return reflect.TypeOf((*N99)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N100 map[string]any
		return reflect.TypeOf((*N100)(nil)).Elem()
	}(), func() reflect.Type {
		type N100 struct{ SameJSON }
		return reflect.TypeOf((*N100)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N101 map[string]any
		return reflect.TypeOf((*N101)(nil)).Elem()
	}(), func() reflect.Type {
		type N101 struct{ SameText }
		return reflect.TypeOf((*N101)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N102 map[string]any
		return reflect.TypeOf((*N102)(nil)).Elem()
	}(), func() reflect.Type {
		type N102 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N102)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N103 map[string]any
		return reflect.TypeOf((*N103)(nil)).Elem()
	}(), func() reflect.Type {
		type N103 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N103)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N104 map[string]any
		return reflect.TypeOf((*N104)(nil)).Elem()
	}(), func() reflect.Type {
		type N104 int64
		return reflect.TypeOf((*N104)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N105 map[string]any
		return reflect.TypeOf((*N105)(nil)).Elem()
	}(), func() reflect.Type {
		type N105 string
		return reflect.TypeOf((*N105)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N106 map[string]any
		return reflect.TypeOf((*N106)(nil)).Elem()
	}(), func() reflect.Type {
		type N106 []byte
		return reflect.TypeOf((*N106)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N107 map[string]any
		return reflect.TypeOf((*N107)(nil)).Elem()
	}(), func() reflect.Type {
		type N107 [2]byte
		return reflect.TypeOf((*N107)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N109 map[string]any
		return reflect.TypeOf((*N109)(nil)).Elem()
	}(), func() reflect.Type {
		type N109 struct{ *SamePtr }
		return reflect.TypeOf((*N109)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N110 struct{ *SamePtr }
		return reflect.TypeOf((*N110)(nil)).Elem()
	}(), func() reflect.Type {
		type N110 struct{ A int }
		return reflect.TypeOf((*N110)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N111 struct{ *SamePtr }
		return reflect.TypeOf((*N111)(nil)).Elem()
	}(), func() reflect.Type {
		type N111 struct{ SameJSON }
		return reflect.TypeOf((*N111)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N112 struct{ *SamePtr }
		return reflect.TypeOf((*N112)(nil)).Elem()
	}(), func() reflect.Type {
		type N112 struct{ SameText }
		return reflect.TypeOf((*N112)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N113 struct{ *SamePtr }
		return reflect.TypeOf((*N113)(nil)).Elem()
	}(), func() reflect.Type {
		type N113 struct {
			A int `json:"b,omitempty"`
		}
		return reflect.TypeOf((*N113)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N114 struct{ *SamePtr }
		return reflect.TypeOf((*N114)(nil)).Elem()
	}(), func() reflect.Type {
		type N114 struct {
			A string `json:",string"`
			B []byte
		}
		return reflect.TypeOf((*N114)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N115 struct{ *SamePtr }
		return reflect.TypeOf((*N115)(nil)).Elem()
	}(), func() reflect.Type {
		type N115 int64
		return reflect.TypeOf((*N115)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N116 struct{ *SamePtr }
		return reflect.TypeOf((*N116)(nil)).Elem()
	}(), func() reflect.Type {
		type N116 string
		return reflect.TypeOf((*N116)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N117 struct{ *SamePtr }
		return reflect.TypeOf((*N117)(nil)).Elem()
	}(), func() reflect.Type {
		type N117 []byte
		return reflect.TypeOf((*N117)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N118 struct{ *SamePtr }
		return reflect.TypeOf((*N118)(nil)).Elem()
	}(), func() reflect.Type {
		type N118 [2]byte
		return reflect.TypeOf((*N118)(nil)).Elem()
	}()})
	out = append(out, [2]reflect.Type{func() reflect.Type {
		type N119 struct{ *SamePtr }
		return reflect.TypeOf((*N119)(nil)).Elem()
	}(), func() reflect.Type {
		type N119 map[string]any
		return reflect.TypeOf((*N119)(nil)).Elem()
	}()})
	return
}
