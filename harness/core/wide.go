package core

// Wide has more fields than fit into a byte.
type Wide struct {
	F000 int8 `json:",string"`
	F001 string
	F002 bool `json:"g2,omitempty"`
	F003 *uint16
	F004 []int
	F005 float64
	F006 struct {
		A int
		B string
	}
	F007 int8 `json:"g7,omitempty"`
	F008 string
	F009 bool
	F010 *uint16
	F011 []int
	F012 float64 `json:"g12,omitempty"`
	F013 struct {
		A int
		B string
	}
	F014 int8
	F015 string
	F016 bool
	F017 *uint16 `json:"g17,omitempty"`
	F018 []int
	F019 float64
	F020 struct {
		A int
		B string
	}
	F021 int8
	F022 string `json:"g22,omitempty"`
	F023 bool
	F024 *uint16
	F025 []int
	F026 float64
	F027 struct {
		A int
		B string
	} `json:"g27,omitempty"`
	F028 int8
	F029 string
	F030 bool
	F031 *uint16
	F032 []int   `json:"g32,omitempty"`
	F033 float64 `json:",string"`
	F034 struct {
		A int
		B string
	}
	F035 int8
	F036 string
	F037 bool `json:"g37,omitempty"`
	F038 *uint16
	F039 []int
	F040 float64
	F041 struct {
		A int
		B string
	}
	F042 int8 `json:"g42,omitempty"`
	F043 string
	F044 bool `json:",string"`
	F045 *uint16
	F046 []int
	F047 float64 `json:"g47,omitempty"`
	F048 struct {
		A int
		B string
	}
	F049 int8
	F050 string
	F051 bool
	F052 *uint16 `json:"g52,omitempty"`
	F053 []int
	F054 float64
	F055 struct {
		A int
		B string
	}
	F056 int8
	F057 string `json:"g57,omitempty"`
	F058 bool
	F059 *uint16
	F060 []int
	F061 float64
	F062 struct {
		A int
		B string
	} `json:"g62,omitempty"`
	F063 int8
	F064 string
	F065 bool
	F066 *uint16
	F067 []int `json:"g67,omitempty"`
	F068 float64
	F069 struct {
		A int
		B string
	}
	F070 int8
	F071 string
	F072 bool `json:"g72,omitempty"`
	F073 *uint16
	F074 []int
	F075 float64
	F076 struct {
		A int
		B string
	}
	F077 int8 `json:"g77,omitempty"`
	F078 string
	F079 bool
	F080 *uint16
	F081 []int
	F082 float64 `json:"g82,omitempty"`
	F083 struct {
		A int
		B string
	}
	F084 int8
	F085 string
	F086 bool
	F087 *uint16 `json:"g87,omitempty"`
	F088 []int
	F089 float64
	F090 struct {
		A int
		B string
	}
	F091 int8
	F092 string `json:"g92,omitempty"`
	F093 bool
	F094 *uint16
	F095 []int
	F096 float64
	F097 struct {
		A int
		B string
	} `json:"g97,omitempty"`
	F098 int8
	F099 string `json:",string"`
	F100 bool
	F101 *uint16
	F102 []int `json:"g102,omitempty"`
	F103 float64
	F104 struct {
		A int
		B string
	}
	F105 int8
	F106 string
	F107 bool `json:"g107,omitempty"`
	F108 *uint16
	F109 []int
	F110 float64 `json:",string"`
	F111 struct {
		A int
		B string
	}
	F112 int8 `json:"g112,omitempty"`
	F113 string
	F114 bool
	F115 *uint16
	F116 []int
	F117 float64 `json:"g117,omitempty"`
	F118 struct {
		A int
		B string
	}
	F119 int8
	F120 string
	F121 bool    `json:",string"`
	F122 *uint16 `json:"g122,omitempty"`
	F123 []int
	F124 float64
	F125 struct {
		A int
		B string
	}
	F126 int8
	F127 string `json:"g127,omitempty"`
	F128 bool
	F129 *uint16
	F130 []int
	F131 float64
	F132 struct {
		A int
		B string
	} `json:"g132,omitempty"`
	F133 int8
	F134 string
	F135 bool
	F136 *uint16
	F137 []int `json:"g137,omitempty"`
	F138 float64
	F139 struct {
		A int
		B string
	}
	F140 int8
	F141 string
	F142 bool `json:"g142,omitempty"`
	F143 *uint16
	F144 []int
	F145 float64
	F146 struct {
		A int
		B string
	}
	F147 int8 `json:"g147,omitempty"`
	F148 string
	F149 bool
	F150 *uint16
	F151 []int
	F152 float64 `json:"g152,omitempty"`
	F153 struct {
		A int
		B string
	}
	F154 int8 `json:",string"`
	F155 string
	F156 bool
	F157 *uint16 `json:"g157,omitempty"`
	F158 []int
	F159 float64
	F160 struct {
		A int
		B string
	}
	F161 int8
	F162 string `json:"g162,omitempty"`
	F163 bool
	F164 *uint16
	F165 []int
	F166 float64
	F167 struct {
		A int
		B string
	} `json:"g167,omitempty"`
	F168 int8
	F169 string
	F170 bool
	F171 *uint16
	F172 []int `json:"g172,omitempty"`
	F173 float64
	F174 struct {
		A int
		B string
	}
	F175 int8
	F176 string `json:",string"`
	F177 bool   `json:"g177,omitempty"`
	F178 *uint16
	F179 []int
	F180 float64
	F181 struct {
		A int
		B string
	}
	F182 int8 `json:"g182,omitempty"`
	F183 string
	F184 bool
	F185 *uint16
	F186 []int
	F187 float64 `json:"g187,omitempty"`
	F188 struct {
		A int
		B string
	}
	F189 int8
	F190 string
	F191 bool
	F192 *uint16 `json:"g192,omitempty"`
	F193 []int
	F194 float64
	F195 struct {
		A int
		B string
	}
	F196 int8
	F197 string `json:"g197,omitempty"`
	F198 bool   `json:",string"`
	F199 *uint16
	F200 []int
	F201 float64
	F202 struct {
		A int
		B string
	} `json:"g202,omitempty"`
	F203 int8
	F204 string
	F205 bool
	F206 *uint16
	F207 []int `json:"g207,omitempty"`
	F208 float64
	F209 struct {
		A int
		B string
	}
	F210 int8
	F211 string
	F212 bool `json:"g212,omitempty"`
	F213 *uint16
	F214 []int
	F215 float64
	F216 struct {
		A int
		B string
	}
	F217 int8 `json:"g217,omitempty"`
	F218 string
	F219 bool
	F220 *uint16
	F221 []int
	F222 float64 `json:"g222,omitempty"`
	F223 struct {
		A int
		B string
	}
	F224 int8
	F225 string
	F226 bool
	F227 *uint16 `json:"g227,omitempty"`
	F228 []int
	F229 float64
	F230 struct {
		A int
		B string
	}
	F231 int8   `json:",string"`
	F232 string `json:"g232,omitempty"`
	F233 bool
	F234 *uint16
	F235 []int
	F236 float64
	F237 struct {
		A int
		B string
	} `json:"g237,omitempty"`
	F238 int8
	F239 string
	F240 bool
	F241 *uint16
	F242 []int `json:"g242,omitempty"`
	F243 float64
	F244 struct {
		A int
		B string
	}
	F245 int8
	F246 string
	F247 bool `json:"g247,omitempty"`
	F248 *uint16
	F249 []int
	F250 float64
	F251 struct {
		A int
		B string
	}
	F252 int8   `json:"g252,omitempty"`
	F253 string `json:",string"`
	F254 bool
	F255 *uint16
	F256 []int
	F257 float64 `json:"g257,omitempty"`
	F258 struct {
		A int
		B string
	}
	F259 int8
}

// Pad takes up room. It isn't decoded into.
type Pad [9000]uint64

func (x *Pad) UnmarshalJSON([]byte) error { panic("padding decoded") }

// Types with parts far away from each other.
type (
	Far struct {
		A int8
		P Pad `json:"-"`
		B string
		C []int16
		D *Far
	}
	FarArr struct {
		A [2]struct {
			B int8
			P Pad `json:"-"`
			C bool
		}
		D any
	}
	FarMap map[string]struct {
		A int32
		P Pad `json:"-"`
		B []string
	}
)
