// Code generated by gen_structs.py. DO NOT EDIT.

package main

import "reflect"

type myInt0 int
type MyInt0 int
type myInt1 int
type MyInt1 int
type myInt2 int
type MyInt2 int

type g0 struct {
	AB bool        `json:"A,string,omitempty"`
	é  interface{} `json:"a b,omitempty"`
}

type g1 struct {
	B string `json:"é,omitemptyx,string"`
	y bool
	g0
	x  uint8 `json:"é,stringomitempty"`
	AB interface{}
	Å  bool `json:"a,omitemptyx,string"`
}

type g2 struct {
	B  string
	AB []int
	A  bool `foo:"1" json:"zz,omitempty"`
	*g0
}

type G3 struct {
}

type g4 struct {
	C *int
}

type G5 struct {
	é interface{} `json:"é,omitempty"`
	B *int        `json:"é,omitempty "`
	*g0
	Å *string
}

type g6 struct {
	C *int `json:""`
	*g0
	Å string
	y interface{} `json:"B, string"`
	*g4
	*G3
	AB uint8
}

type G7 struct {
	g0
	*g6
}

type G8 struct {
	Å interface{} `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,string,omitempty"`
	g4
	y string
	C interface{}
	*G7
	AB bool
}

type g9 struct {
	G3
	é bool
	y int
	C *string `json:"a b,stringomitempty"`
	*g4
	myInt0
	MyInt0
}

type G10 struct {
	y []int
	G7
	C bool `json:"a,string"`
	MyInt1
}

type g11 struct {
	Å  interface{} `json:"-,bogus"`
	C  *string
	AB []int `json:"B,bogus"`
	A  string
	g1
	G7
}

type G12 struct {
	y uint8 `json:"a'b,bogus"`
	x bool
	A *int `json:"a/b,string"`
	Å string
}

type G13 struct {
	é []int `json:A`
}

type g14 struct {
	é *int `json:"x,"`
	B int
}

type G15 struct {
	g6
}

type G16 struct {
	C bool   `json:"B,omitempty,string"`
	y string `json:"a'b,string"`
	*g1
	AB   *int        `json:",omitemptyx,string"`
	A    interface{} `json:"é,stringomitempty"`
	*G15 `json:"A"`
	B    int
	g4
}

type g17 struct {
	Å int `json:"世界"`
	B int
}

type g18 struct {
	x interface{} `json:"A,omitempty,string"`
	B uint8
	é interface{} `json:"a'b"`
	C uint8
}

type G19 struct {
	C *string
}

type g20 struct {
	g6
	x *int
	g14
}

type G21 struct {
	B uint8 `json:"世界,"`
	A []int
	*G19
	é []int
	x uint8
}

type G22 struct {
	x int `json:",string"`
	é int `json:", string"`
	G5
	g4
	y *string `foo:"1" json:"zz,omitempty"`
	MyInt1
}

type G23 struct {
	B string
	*G12
	C int `json:"a,omitempty"`
	*G5
	myInt2
}

type G24 struct {
	A *string `json:"a'b,string,omitempty"`
	*g18
	*G21
	x *string `json:",bogus"`
}

type g25 struct {
	G21
	AB string `json:"a'b,omitempty "`
	x  *int   `json:"x, string"`
	B  uint8  `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,"`
	G24
	C string
	é int
	Å *string `json:"a/b"`
	myInt1
}

type G26 struct {
	g14
}

type g27 struct {
	x string
	*G19
	A *string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,stringomitempty"`
}

type g28 struct {
	*G15
	G23
	C *string `json:"B, string"`
	y *string
	B uint8 `json:"-,"`
}

type g29 struct {
	AB uint8
	é  string
	B  bool `json:"é"`
	G22
}

type g30 struct {
	AB *int
	*G13
	*g14
	G22
}

type g31 struct {
	*g14
	x interface{}
	g27
}

type G32 struct {
}

type G33 struct {
	y int `xml:"q"`
	C int
	g17
	A []int `json:"-"`
	MyInt0
}

type g34 struct {
	g20
	B uint8 `json:""`
}

type g35 struct {
	C  int
	AB int `json:"a'b, string"`
	G33
	*G32
}

type G36 struct {
	G21
}

type G37 struct {
	G22
}

type G38 struct {
	y *string
	*G33
	G26
	AB *int        `json:"1,omitempty,string"`
	A  interface{} `json:"a'b,"`
}

type g39 struct {
	A string `json:"a/b, string"`
	é bool   `json:""`
	y *int
}

type g40 struct {
	g35
	A int `json:"a/b,string,omitempty"`
	*G38
	é *int `json:"x,omitempty,string"`
	G33
	x *string `json:"a b,"`
	myInt1
}

type g41 struct {
	y uint8
	é string `json:"a/b, string"`
	Å interface{}
	A *string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,"`
	*G33
	AB []int `json:"a'b,string,omitempty"`
	*g39
	MyInt2
}

type g42 struct {
	B  uint8       `json:A`
	AB bool        `foo:"1" json:"zz,omitempty"`
	y  interface{} `json:"A!#$%&()*+-./:<=>?@[]^_{|}~"`
}

type G43 struct {
	G36
	é  uint8 `json:"a\\b,stringomitempty"`
	B  string
	AB []int
	A  string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~, string"`
}

type G44 struct {
	x *int
}

type g45 struct {
	é []int
	*g35
	*g27
	g39
}

type g46 struct {
	*g31
	*G24
	AB bool
	A  *string
	é  *string
	Å  *string `json:"A"`
}

type g47 struct {
	*g27
	*G36
	x []int `json:"C"`
}

type g48 struct {
	Å []int `json:"世界"`
	*G38
	C bool `json:"-,omitemptyx,string"`
	g35
}

type G49 struct {
	x uint8   `foo:"1" json:"zz,omitempty"`
	é *string `json:",string"`
	C *int    `json:"a'b"`
	g35
	*G32
	y []int `json:"é,stringomitempty"`
}

type G50 struct {
	g41 `json:"emb"`
	G32
}

type g51 struct {
	g39
	g42
	AB string `json:""`
	x  uint8
}

type G52 struct {
	Å string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,string,omitempty"`
	G32
	B interface{}
	C []int `json:"-,"`
}

type g53 struct {
	y bool
	g31
	A interface{}
	C interface{}
}

type g54 struct {
	x int `json:"a,string"`
}

type g55 struct {
	A uint8 `json:"x,omitemptyx,string"`
	g54
	Å string `json:"x,bogus"`
	*g31
}

type g56 struct {
	Å  *string `json:",omitemptyx,string"`
	AB bool    `json:"世界"`
	*g42
	*g54
	G52
	y interface{} `json:"a b,bogus"`
}

type g57 struct {
	g41
	C  int
	B  string
	AB *int
}

type G58 struct {
	*g51
	A uint8
	C interface{} `json:"1"`
	g54
	x interface{}
}

type G59 struct {
}

type g60 struct {
	C bool `json:"a'b,omitemptyx,string"`
	g39
	B   *string
	G52 `json:"A"`
	*g54
	myInt0
}

type G61 struct {
	C string
	*g35
	B *int
}

type g62 struct {
	g35
	g60
	x *int `json:"世界,omitempty "`
	B *string
}

type G63 struct {
	g56
	C []int
	myInt0
}

type G64 struct {
	C   uint8 `json:"B"`
	y   uint8 `json:"é,omitemptyx,string"`
	g56 `json:"-"`
	g35 `json:"emb"`
}

type G65 struct {
	B []int `json:"a'b,"`
}

type G66 struct {
	Å int `json:"B,string,omitempty"`
}

type g67 struct {
	*G59
	g60
}

type G68 struct {
	é int `foo:"1" json:"zz,omitempty"`
	G66
	*G65
	x []int       `json:"a,omitempty,string"`
	Å interface{} `json:"-,stringomitempty"`
	y int
	C interface{}
}

type G69 struct {
	*G65
	G52
	*G58
}

type G70 struct {
	*g60
	Å int     `json:"k1,omitempty,string"`
	C *string `json:"A,bogus"`
	myInt1
	MyInt1
}

type g71 struct {
	AB string `json:"1,stringomitempty"`
	G58
	G52 `json:"emb"`
}

type G72 struct {
	B *string `json:"-,"`
	x bool    `json:"a b,stringomitempty"`
}

type G73 struct {
	y uint8
	MyInt1
}

type g74 struct {
	G59
	*G72
}

type G75 struct {
	A    *string
	*G65 `json:",omitempty"`
	C    *string `json:",omitempty"`
	B    string
	é    interface{}
	g54
	x *int `json:"C,string"`
	myInt0
}

type G76 struct {
	C  uint8
	AB *string `json:"k1,stringomitempty"`
	y  *int    `xml:"q"`
	A  *int    `json:"C,stringomitempty"`
	G52
}

type g77 struct {
	Å *int        `json:"a/b,string"`
	C interface{} `json:"1"`
	x bool        `json:"a,stringomitempty"`
	A *int
}

type G78 struct {
	G58
	g74
}

type G79 struct {
	G73
	C *int `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,omitemptyx,string"`
	*G68
}

type g80 struct {
	g74
	é *string
	C *string
	g77
	*G68
	Å  interface{} `json:""`
	B  []int       `json:"k1,omitempty "`
	AB int
	myInt2
}

type G81 struct {
	AB bool
	y  *string `json:"é,"`
	*g80
	é int
	A *int `json:"1"`
	*G68
}

type G82 struct {
	g60
	A  int
	AB *string `json:"x"`
	Å  bool
	G73
	*G76
	y *int `xml:"q"`
	C int  `json:"k1,omitemptyx,string"`
	myInt1
}

type G83 struct {
	B *string `json:"x,omitempty"`
	G72
	é int
	*G59
	G76
}

type g84 struct {
	*g80
	G59 `json:"emb"`
	y   interface{}
	G76
}

type G85 struct {
	G72 `json:"-"`
	G65 `json:"emb"`
	g60
	y int `json:",stringomitempty"`
}

type g86 struct {
	G73
	G76
}

type G87 struct {
	é bool `json:",string"`
	Å *int
	G65
	*G73
	A *int
	B bool
}

type g88 struct {
	x *int
	*G75
	Å []int
	G73
	C  *int
	AB string
	A  *string
	B  interface{} `json:"世界,omitemptyx,string"`
	MyInt1
}

type g89 struct {
	g88
	G66
	C   *string
	g80 `json:"A"`
}

type g90 struct {
	*G73
	g74
}

type G91 struct {
	*g80
	x *string `json:"a b,string"`
	G65
	G79
}

type g92 struct {
	G72
	AB []int
	G66
}

type G93 struct {
	*G75
	G66
	MyInt0
}

type g94 struct {
	*g80
	Å *string `json:""`
	B []int
	G79
}

type G95 struct {
	G87
	x  bool  `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,bogus"`
	AB uint8 `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,bogus"`
	*g88
}

type g96 struct {
	A int   `json:"é"`
	x []int `json:"世界"`
	*G87
	C interface{}
	Å int `json:"x,"`
	*g90
}

type g97 struct {
	G72
	g74
}

type G98 struct {
	MyInt2
}

type G99 struct {
	*g97
}

type g100 struct {
	AB string
	y  *int
	C  string
}

type G101 struct {
	g100
	Å   []int `json:"a'b"`
	AB  *int
	g88 `json:"-"`
	*G79
}

type G102 struct {
	g77 `json:"-"`
	G79
	A *string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,"`
	myInt0
	MyInt0
}

type g103 struct {
	G93 `json:"emb"`
	G98 `json:"emb"`
}

type G104 struct {
	g88 `json:",omitempty"`
	C   interface{}
	y   interface{} `json:"世界"`
	*g97
	G79
}

type g105 struct {
	Å *string
	*G98
	A *int `json:"C,omitempty"`
	B int
}

type g106 struct {
	G98
	AB []int
	g92
}

type G107 struct {
	AB interface{}
	A  *int `json:"A,string"`
	g92
}

type G108 struct {
	g97
	*g90
}

type g109 struct {
	C bool
	*G79
	y string
	*g106
	Å *string `json:"a b,omitempty "`
}

type G110 struct {
	Å interface{} `json:"A,stringomitempty"`
	é int         `json:"a/b,bogus"`
}

type g111 struct {
	A    bool
	g106 `json:"-"`
	Å    int
	AB   uint8
	é    []int `json:"A,"`
}

type g112 struct {
	A  uint8 `json:",string"`
	B  *int
	AB []int `json:""`
	é  []int
}

type g113 struct {
	g105
	g100
	B *int `json:"é,string,omitempty"`
}

type g114 struct {
	y string
}

type G115 struct {
	*G98
	*g100
}

type G116 struct {
	x *int `json:"A,string,omitempty"`
	G98
}

type g117 struct {
	*G98
	x int
	*g113
	*G107 `json:"A"`
}

type G118 struct {
	*G98 `json:"-"`
	é    *int
	g105
	x int
	g92
	myInt1
}

type g119 struct {
	g114
	G118 `json:",omitempty"`
	é    *int  `json:"A,omitempty,string"`
	B    uint8 `json:"A,omitempty "`
	*g100
	myInt2
}

type G120 struct {
	C uint8 `json:"C,string"`
	*G116
	B *int `json:"A,"`
	*g113
	y interface{}
	myInt0
	MyInt0
}

type G121 struct {
}

type G122 struct {
	Å  string
	AB *int `json:"-,string"`
	g97
}

type g123 struct {
	AB bool  `json:"a'b"`
	Å  uint8 `json:",omitempty,string"`
	A  string
}

type G124 struct {
	G118
	Å *int
	é uint8
	G107
	y bool
}

type g125 struct {
	myInt2
}

type g126 struct {
	Å *string `json:"a/b,omitemptyx,string"`
	x string
	MyInt0
}

type G127 struct {
	g112 `json:"A"`
	G107
	x string
}

type g128 struct {
	g114
	y *int  `json:"1,bogus"`
	Å []int `json:"a b"`
	A uint8
	G107
	*G110 `json:"-"`
	x     string `json:"A,omitemptyx,string"`
}

type g129 struct {
	*g113
	*G118
	y bool
}

type g130 struct {
	G115
	Å []int
	*G107
}

type g131 struct {
	*G116
	A []int
	y string
}

type G132 struct {
	x interface{}
}

type g133 struct {
	g125
	C uint8 `json:"C"`
	é uint8
	G107
	G116
	Å  interface{} `json:"a b"`
	A  int         `json:"世界,string"`
	AB interface{} `json:"k1,omitempty,string"`
}

type G134 struct {
	AB   bool
	G132 `json:"-"`
	*g112
}

type G135 struct {
	G110
	C *string
	x int   `json:"x,omitempty,string"`
	A uint8 `json:"k1,omitempty"`
	é int
}

type G136 struct {
	g125
	*G118 `json:"B"`
	g131
}

type G137 struct {
	*G118
	B *int
}

type g138 struct {
	B bool
	A *string
	MyInt0
}

type g139 struct {
	*G121
	*G118
	B string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,omitempty,string"`
}

type g140 struct {
}

type G141 struct {
	y int
	Å *string `json:"C,stringomitempty"`
	é *int
}

type G142 struct {
	G141
	y    bool `json:"é"`
	g138 `json:"B"`
}

type g143 struct {
	g140
	C bool
	x []int
	Å *string `json:"a,omitempty,string"`
	*G142
}

type g144 struct {
	*g125
	y *int
	g123
}

type G145 struct {
	g138
	g126
	é string `json:"1,string,omitempty"`
}

type G146 struct {
	Å bool `json:", string"`
	g123
	B []int
	C uint8
	G134
}

type g147 struct {
	A  []int `json:"世界"`
	AB []int
	y  *int
	*G145
}

type g148 struct {
	é     uint8 `json:"世界"`
	*G135 `json:"-"`
	g140
	G142 `json:"emb"`
	B    uint8 `json:""`
	C    []int `xml:"q"`
	Å    *string
}

type G149 struct {
	g138
	C uint8
	g140
}

type g150 struct {
	g140
	B *int
}

type G151 struct {
	C *int    `json:"1,omitempty"`
	A *string `json:"A,omitemptyx,string"`
	Å *int    `json:"A,omitempty"`
	é string  `json:""`
}

type G152 struct {
	x string
	é uint8 `json:"é,string,omitempty"`
	MyInt2
}

type g153 struct {
	x *int    `json:"1, string"`
	A *string `json:"A,omitemptyx,string"`
	G149
	B uint8 `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,omitempty,string"`
	C string
}

type g154 struct {
	B interface{} `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,string,omitempty"`
	g150
	g144
	y string
}

type G155 struct {
	C bool
	G145
	*g150
}

type g156 struct {
	G146
	A *string
	x uint8       `json:"C,omitempty"`
	B interface{} `json:"a\\b"`
	*G142
	y int
	MyInt0
}

type g157 struct {
	AB uint8 `json:"世界,omitempty,string"`
	*G149
	*G152
}

type G158 struct {
	é *string
	g147
	g143 `json:"A"`
	C    *string
	AB   *string `json:"a\\b"`
	Å    uint8
	G145
	A int `json:"a b,omitempty "`
}

type g159 struct {
	g148
	B int `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,bogus"`
	*g154
	AB string `json:"a/b,omitempty "`
	G146
	y []int `json:"a\\b,omitempty"`
	myInt0
}

type g160 struct {
}

type G161 struct {
	Å int `json:"a,omitemptyx,string"`
	g160
	g148
	y uint8 `json:"-"`
	A string
	é []int
	C string `json:"A,"`
}

type g162 struct {
	Å int
	y bool `json:"a'b"`
	A []int
}

type G163 struct {
	*g153
	AB interface{} `json:"1"`
	B  *int
	A  *string `json:""`
}

type G164 struct {
	x []int
	B bool `json:"A,stringomitempty"`
	G146
	G152
	é uint8 `json:"a b,bogus"`
}

type g165 struct {
	C  interface{}
	AB *string
	*g154
	x int
	B *string
	G155
	G145 `json:"B"`
}

type G166 struct {
	C *int   `json:"a\\b,string,omitempty"`
	A string `json:"é,stringomitempty"`
	*g147
	B []int `json:",string,omitempty"`
	x string
	*g148
}

type G167 struct {
	y *int
	*g147
	C []int `json:"a\\b,omitempty "`
	G149
	B     []int `json:"世界"`
	é     []int `json:"1"`
	*G155 `json:"emb,omitempty"`
}

type g168 struct {
	A *int   `json:",string,omitempty"`
	C string `json:"k1,string,omitempty"`
	G145
	*g153
	*g154
}

type G169 struct {
	x  uint8 `json:"x,string"`
	AB string
	g148
	*g147
}

type g170 struct {
	y bool `json:"-,string,omitempty"`
	MyInt2
}

type G171 struct {
	A *int
	C *string
	g154
	G146
	Å *int `json:"A,omitempty"`
}

type g172 struct {
	y bool `json:"B,bogus"`
	*g150
}

type g173 struct {
	C bool    `json:",omitempty "`
	A *string `json:"x,omitemptyx,string"`
	y bool    `json:"1"`
	é string  `json:"C"`
	g157
	g148
}

type G174 struct {
	A *int
	g154
	g172
}

type g175 struct {
	g160
	x uint8 `json:"a/b,omitempty"`
	y interface{}
}

type g176 struct {
	A int
	*G149
	Å  string `json:"k1,bogus"`
	AB *string
}

type g177 struct {
	G152
	B bool
	C *int `json:"-,bogus"`
	x bool
	y int
}

type g178 struct {
	G151
	*g150
	*G155 `json:"-"`
}

type G179 struct {
	*g154
}

type G180 struct {
	G155
	*g153
}

type G181 struct {
	y *int   `json:""`
	B string `json:"C,"`
	C int    `json:"a,omitemptyx,string"`
	Å *int   `json:"a/b,bogus"`
	g150
	é bool
}

type G182 struct {
	*G155
	AB   uint8
	A    *int
	G152 `json:"emb"`
	B    uint8
}

type G183 struct {
	A *string `json:"-,omitempty,string"`
	g176
	MyInt0
}

type g184 struct {
	Å bool `json:"a/b"`
	*g170
	g172
	MyInt1
}

type g185 struct {
	g175 `json:"A"`
	y    int
	g162
}

type G186 struct {
	A     *int `json:"a'b,stringomitempty"`
	*G152 `json:"emb,omitempty"`
	C     *int
}

type G187 struct {
	AB []int `json:"é, string"`
}

type g188 struct {
	g176
	y    bool
	Å    interface{} `foo:"1" json:"zz,omitempty"`
	B    int
	g177 `json:"emb"`
	C    uint8
	é    uint8 `json:",omitempty"`
}

type G189 struct {
	Å  bool  `json:",omitemptyx,string"`
	C  uint8 `json:"-,"`
	x  interface{}
	AB int `json:"A,omitempty,string"`
	*g172
	B interface{} `json:"a"`
	G181
}

type g190 struct {
	G186 `json:",omitempty"`
	é    uint8
	*g172
}

type G191 struct {
	Å bool `json:"a,stringomitempty"`
}

type g192 struct {
	g162
	A  *string
	AB []int
	g157
	C *string `json:"世界,omitempty,string"`
	x bool
}

type G193 struct {
	AB []int `json:"x"`
	B  string
	x  interface{} `foo:"1" json:"zz,omitempty"`
	g162
	G186 `json:"B"`
	y    interface{} `json:"-"`
}

type G194 struct {
	é string
	y bool `json:"C,bogus"`
	g175
	G191
	x    uint8
	g170 `json:"B"`
}

type G195 struct {
	é *int
	B interface{} `json:"a'b,omitempty,string"`
	C *int        `json:"世界,bogus"`
	A string      `json:"k1,string"`
}

type g196 struct {
	A []int
	G191
	g177
	myInt1
}

type g197 struct {
	x int `json:"x,stringomitempty"`
}

type g198 struct {
	G181
	g172
	B interface{}
}

type G199 struct {
	AB   uint8 `json:"a\\b"`
	G181 `json:"-"`
}

type G200 struct {
	g175
	x []int       `json:"C,bogus"`
	B interface{} `json:"C,omitempty "`
	é *string
}

type G201 struct {
	Å *int
	*g176
	*G195 `json:"B"`
}

type g202 struct {
	G195
	*G194 `json:"-"`
	C     string `json:""`
	MyInt1
}

type G203 struct {
	y    bool
	x    string `json:"A,string,omitempty"`
	é    interface{}
	g196 `json:"emb"`
	*g175
}

type G204 struct {
	AB bool `json:"a\\b,string"`
	x  int
	é  string `json:"a\\b,string,omitempty"`
	g196
}

type G205 struct {
	C    bool `json:"B, string"`
	g177 `json:"A"`
	*G200
	myInt1
}

type G206 struct {
	é *int
}

type g207 struct {
	A []int `json:"A, string"`
	y *int  `json:"A!#$%&()*+-./:<=>?@[]^_{|}~"`
}

type G208 struct {
	*g197
	G187
	B  *string
	y  *int
	x  bool
	AB *string
	G206
	C uint8
	MyInt1
}

type G209 struct {
	A     *string `json:"a b,omitempty "`
	*G193 `json:"A"`
	AB    *int `json:"-,"`
	G191
	x []int
	*G208
	B bool `json:""`
}

type G210 struct {
	G195
	G191
}

type g211 struct {
	g185
	B string `json:"a\\b, string"`
	x *int
	*G195
	C interface{}
}

type G212 struct {
	Å bool
	B *string `json:"A,bogus"`
	*g207
	*g185
	y *string
	A *string `json:"1,omitempty"`
	G194
}

type g213 struct {
	Å []int
	*G210
	C int
	x *int `json:"x,bogus"`
}

type G214 struct {
	y  interface{} `json:"a b"`
	AB *string
	G194
	G206
	C *int
}

type G215 struct {
	Å bool `json:"a,bogus"`
	*G208
	*G186
	x uint8
	*G193
}

type G216 struct {
	A *string
	G194
	G206
}

type g217 struct {
	é string
	*G200
	y []int
	g196
	Å int
	B bool
}

type g218 struct {
	G187
	y string `json:"a,omitemptyx,string"`
	Å interface{}
	G191
	é uint8 `json:"é,"`
}

type g219 struct {
	x int
	G195
	G206
	*G187 `json:"-"`
}

type G220 struct {
	g218
	*G191
	AB []int
}

type G221 struct {
	x int  `json:"B"`
	A *int `json:"a"`
	*g213
	é *string `json:"a'b,string,omitempty"`
}

type g222 struct {
	G195
	é int
	g207
	G193 `json:",omitempty"`
}

type G223 struct {
	G208
	AB uint8
	g219
}

type G224 struct {
	C  bool
	y  interface{}
	A  interface{} `json:",stringomitempty"`
	AB []int       `foo:"1" json:"zz,omitempty"`
}

type G225 struct {
	x interface{} `json:"a\\b,omitempty "`
	*G200
	*G224 `json:"B"`
	*G208
}

type G226 struct {
	*g213
}

type g227 struct {
	G200
	*g218
	*g219
	y string
}

type g228 struct {
	x string
	*g218
	A uint8
	B string
	*G195
	AB   []int `json:"a\\b"`
	G220 `json:"B"`
}

type G229 struct {
	C bool `json:"é"`
	*G208
	x interface{} `json:"é,omitempty,string"`
	A string      `json:"-,string,omitempty"`
	*G220
	G223
}

type G230 struct {
	*G195
	G200
	g196
	AB interface{} `json:""`
}

type G231 struct {
	y int
	*g196
}

type G232 struct {
	A  []int
	x  uint8       `json:",string,omitempty"`
	AB interface{} `json:"B,string,omitempty"`
	G208
}

type g233 struct {
	*G210
	*g219
	G232 `json:"emb,omitempty"`
	B    []int `json:"a b,omitempty "`
	Å    []int `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,"`
}

type g234 struct {
	*G200
	C int
	é bool `json:"a/b,omitempty "`
}

type g235 struct {
	g196 `json:"B"`
	g207
}

type g236 struct {
	B string `json:"1,omitempty "`
	A []int  `json:"C,omitempty "`
	g197
	*G208 `json:"A"`
	G206
	C []int
}

type G237 struct {
	é *int
	g207
	C []int `json:"x,"`
	A uint8 `json:"k1,"`
}

type g238 struct {
}

type G239 struct {
	C interface{}
	y *string
}

type G240 struct {
	y *string
	*G223
	A bool `json:",omitempty "`
	*G224
	é *string `json:"a\\b,"`
	B *string `json:"a b,bogus"`
	G210
	AB uint8
}

type G241 struct {
	myInt1
}

type g242 struct {
	G237
	G224
	*g219
	myInt2
}

type g243 struct {
	B []int
	Å uint8
	é string `json:"A,omitempty "`
	*G223
}

type G244 struct {
	*G210
	C *int
	MyInt1
}

type G245 struct {
	*g242
	G239
	MyInt2
}

type G246 struct {
	AB string `json:"a b"`
	x  string
	A  *int
}

type g247 struct {
	AB int
	y  int
	B  int
	é  []int
}

type g248 struct {
	*G224
	g219
	y *int
	x string `json:"x,bogus"`
	Å string
	A interface{} `json:"a'b,omitempty"`
	MyInt2
}

type g249 struct {
	*G246
	G244
	G223
	é interface{}
}

type G250 struct {
	g247
	Å string
}

type g251 struct {
	x []int `json:"a'b"`
	C string
	é []int
	*G224
	G232
	B *string `json:",string"`
}

type G252 struct {
	Å uint8
	é string
	x []int `json:",omitempty"`
	y uint8 `json:"k1"`
	A uint8 `json:"a b,string,omitempty"`
	C uint8 `json:"a/b, string"`
}

type G253 struct {
	*G232 `json:"B"`
	g236
	AB *string `json:"k1"`
	myInt1
}

type G254 struct {
	G250
	B  interface{}
	Å  *string `json:"k1,omitempty,string"`
	AB uint8
	*g238
}

type G255 struct {
	Å  bool `json:""`
	A  int  `json:"-"`
	AB int
}

type G256 struct {
	x *string `json:",omitempty "`
	C uint8   `json:""`
	G241
	B uint8 `json:"A"`
	*g236
	Å *string
	MyInt1
}

type G257 struct {
	G237
	C interface{} `json:"1"`
	myInt2
}

type G258 struct {
	G241
	G246
	Å interface{}
}

type G259 struct {
	x uint8 `json:"A!#$%&()*+-./:<=>?@[]^_{|}~"`
	*g242
	G257
	A []int `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,omitempty "`
	B interface{}
	y uint8 `json:"é"`
}

type G260 struct {
	y int
	*G254
	C     uint8
	*G250 `json:"-"`
}

type g261 struct {
	AB bool `json:"B,string"`
	G250
	G254
}

type g262 struct {
	A    []int
	Å    *int
	x    *string
	G250 `json:"-"`
	MyInt1
}

type G263 struct {
	Å *int `json:"a b, string"`
	B *int
	x string `json:"1, string"`
	G258
}

type g264 struct {
	AB string `json:"a\\b,string"`
	é  string
	x  int `json:"世界,bogus"`
	MyInt0
}

type g265 struct {
	*G252
	B uint8 `json:"1,omitempty,string"`
	*G257
	G255 `json:"-"`
	AB   *int
}

type g266 struct {
	B uint8
	G246
	*g264
	*g262
	A uint8
}

type g267 struct {
	*G263
	B    bool `json:"k1,string"`
	x    *string
	G254 `json:",omitempty"`
}

type g268 struct {
	AB *int
	G255
	C string `json:"x, string"`
	G252
	x *string `json:""`
	MyInt1
}

type G269 struct {
	Å bool
	*G252
}

type G270 struct {
	x interface{}
	*G250
	C *string `json:"C, string"`
	é interface{}
	A string
	*g248
}

type g271 struct {
	y string
	G269
	C *int `json:"A,string"`
	A bool `json:"-,string"`
	g264
	G246
}

type g272 struct {
	B interface{} `json:",omitempty "`
	G263
	myInt2
}

type G273 struct {
	A    int `json:",stringomitempty"`
	G263 `json:"B"`
}

type G274 struct {
	AB uint8 `json:"a,"`
	Å  interface{}
	A  *int
	y  uint8 `foo:"1" json:"zz,omitempty"`
	g247
	x *string
}

type g275 struct {
	B string
	*g271
	é *string
	A string
	g264
	x []int `json:"C"`
	C int
	MyInt2
}

type G276 struct {
	Å  int     `json:"a'b,bogus"`
	B  *string `json:"1, string"`
	AB *int    `json:"x,bogus"`
	G257
}

type G277 struct {
	é *int
	g262
	*g271
}

type G278 struct {
	AB *int
	A  int `json:"-,bogus"`
	y  uint8
	x  *string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,bogus"`
}

type g279 struct {
	Å int `json:"a'b,stringomitempty"`
	*g264
	myInt0
}

type g280 struct {
	*G269
	MyInt1
}

type g281 struct {
	Å int `json:"a'b,bogus"`
	*G269
	A interface{}
}

type G282 struct {
	g279
}

type G283 struct {
}

type g284 struct {
}

type g285 struct {
	y string
}

type G286 struct {
	y interface{} `json:"a b"`
	é *int
	*G278
	Å uint8
	G263
	myInt1
}

type g287 struct {
	x *int  `json:"1,string,omitempty"`
	C int   `foo:"1" json:"zz,omitempty"`
	B []int `xml:"q"`
	g268
	*g281
}

type G288 struct {
	g279
	Å string `json:"x"`
}

type G289 struct {
	x bool
	C uint8
	y []int  `json:"é,"`
	Å string `json:"B,string,omitempty"`
	*g285
	B []int
}

type G290 struct {
	G278
	B uint8
	*g271
}

type G291 struct {
	A int         `json:", string"`
	é interface{} `json:"1,omitemptyx,string"`
	*g280
	B *int `json:"1,omitemptyx,string"`
}

type g292 struct {
	*g279
	y bool
	C string
	A string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,omitempty "`
	myInt1
}

type g293 struct {
	Å bool
	A []int `json:"世界,omitempty"`
	y int
}

type g294 struct {
	y  []int `json:"A,bogus"`
	C  []int `json:"a/b,string"`
	x  interface{}
	A  string `json:"a'b,omitempty"`
	AB int    `json:"B,omitemptyx,string"`
	MyInt0
}

type G295 struct {
	A *int `json:"a, string"`
	é bool `json:"a\\b,omitempty "`
	Å *string
	B uint8 `json:"世界"`
	g280
	*G289 `json:"A"`
}

type g296 struct {
	AB string
}

type G297 struct {
	B uint8
	g293
	C    *string
	y    *string
	g280 `json:",omitempty"`
	myInt0
}

type g298 struct {
	A bool
	y interface{} `json:"C,omitempty"`
	Å *int        `json:"-, string"`
}

type G299 struct {
	*g285
	*g294
	y []int `json:"k1,string"`
}

type g300 struct {
	g280
	y bool
	g298
	B *int
	C *string `json:"é,omitempty"`
	é string
}

type G301 struct {
	G289
	*g292
	é bool `xml:"q"`
}

type g302 struct {
	A string
	Å *string
	*g292
	AB *int
}

type g303 struct {
	g285
	*g284
	AB int
	x  interface{} `json:"a b"`
	g296
}

type G304 struct {
	B []int `json:"1"`
	*g298
	A uint8
	MyInt1
}

type g305 struct {
	é []int
	G282
	g294 `json:",omitempty"`
}

type G306 struct {
	B *int `json:""`
}

type G307 struct {
	é    bool  `json:"a,stringomitempty"`
	C    []int `json:"é"`
	g284 `json:"B"`
	Å    uint8 `json:"1, string"`
	g298
}

type g308 struct {
	*g285
	x interface{}
}

type G309 struct {
	g285
}

type G310 struct {
	*G309
	AB *int `json:"a\\b,stringomitempty"`
}

type g311 struct {
	*G306
	B  uint8 `json:",string"`
	C  bool  `json:"a'b,string"`
	AB *int
	A  string `json:"a/b,omitemptyx,string"`
	myInt2
}

type G312 struct {
	y string `json:"a/b"`
	x []int  `json:"a b,omitempty,string"`
	g311
	B int `json:"C,string,omitempty"`
	g293
}

type g313 struct {
	é int
	G310
	*g303
	G306 `json:"A"`
	Å    uint8 `json:"A,"`
}

type G314 struct {
	AB string `json:"-,omitempty,string"`
	g298
	Å string      `json:",omitemptyx,string"`
	y string      `json:"x,string,omitempty"`
	C interface{} `json:""`
}

type G315 struct {
	AB interface{}
	é  *int `json:"x,omitempty"`
}

type G316 struct {
	G307
	y  bool `json:"a,omitempty"`
	x  string
	B  interface{} `json:"-, string"`
	AB interface{} `json:"a b,omitempty"`
	A  *string     `json:"x,"`
	G310
}

type g317 struct {
	AB int
	Å  *string
	*G299
	*g303
	é *string
	x *int
}

type g318 struct {
	G304
	x string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,omitempty"`
}

type g319 struct {
	x *string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,"`
	y []int
	G307
}

type g320 struct {
	*G312
	é *string
	*g308
	*G304
	AB *int
}

type G321 struct {
	*g303
	G310
}

type g322 struct {
	G312
	é    *int
	G315 `json:"A"`
}

type G323 struct {
	Å  bool `json:"A,stringomitempty"`
	C  bool `json:"-,"`
	y  *int `json:"a'b"`
	AB *int `json:"a\\b,omitempty,string"`
	*G315
	*g317
	A     *string
	*G306 `json:"A"`
}

type G324 struct {
	G306
	*g318
}

type g325 struct {
	*g319
	G309
	y int `json:"-,bogus"`
}

type g326 struct {
	y  bool `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,omitempty"`
	AB string
	Å  *int `json:"B,omitempty "`
}

type g327 struct {
	A interface{}
	Å interface{} `json:"C,bogus"`
	x *int
}

type g328 struct {
	A *string
	C []int
	x uint8 `json:"a b,bogus"`
	*g327
}

type G329 struct {
	é bool `json:"A"`
	A *int `json:"a'b"`
	B int
	C uint8 `json:"x,omitemptyx,string"`
	*g308
	*g317
	AB uint8 `json:"1,omitempty,string"`
	y  string
}

type G330 struct {
	x string `json:"A!#$%&()*+-./:<=>?@[]^_{|}~,omitempty "`
}

type G331 struct {
	*g317
	g311
	AB int   `json:",string"`
	A  []int `xml:"q"`
}

type G332 struct {
	A []int
	g318
	MyInt2
}

type G333 struct {
	g317
	A  int
	AB *string `json:"a b,string"`
	*G309
}

type g334 struct {
	Å *int `foo:"1" json:"zz,omitempty"`
	é []int
	MyInt1
}

type g335 struct {
	AB uint8 `json:"-,"`
	g317
	G310
}

type G336 struct {
	*g317
	B string
	g334
}

type G337 struct {
	C string `json:A`
	g328
	AB *int
	B  *string `json:","`
}

type G338 struct {
	AB bool `json:"k1"`
	Å  string
	*g317
	g319
	é string `json:"x"`
	y bool
}

type g339 struct {
	*g328
	g319
}

type G340 struct {
	y  *int
	AB uint8 `json:"a, string"`
	é  int
}

type G341 struct {
	C uint8
	*g319
	G330
	Å int     `json:", string"`
	B *string `json:"a b,omitempty "`
}

type g342 struct {
	*G312
	G330
}

type g343 struct {
	y *int `json:"1,string,omitempty"`
	g328
}

type G344 struct {
	*g334
	Å bool `json:"x,bogus"`
	*g343
}

type g345 struct {
	Å interface{}
	y []int
	G340
	B *string
}

type g346 struct {
	A interface{} `json:"-"`
	g318
	*g343
	*g319
}

type g347 struct {
	x interface{} `json:"x"`
	G337
	*g328
}

type G348 struct {
	g327
	AB string `json:"k1"`
}

type G349 struct {
	Å uint8
	g318
	*G315
	G337
}

type G350 struct {
	B int
	g334
	Å int
	g319
	G330
}

type g351 struct {
	G315
}

type g352 struct {
	Å string `json:"a'b,omitempty "`
	G348
	*g343
	*g328
}

type g353 struct {
	é *string
	A int
	y *string `json:",omitempty"`
}

type G354 struct {
	C bool
	Å []int
	A *int
	G340
	g327
	*g353
}

type g355 struct {
	x string `json:"A,omitempty"`
	g343
	*g326
}

type G356 struct {
	g326
	*g319
	A interface{} `json:"C,omitempty"`
}

type g357 struct {
	*g326
	*G354
	g319
	A  string `json:"a'b,omitempty"`
	C  bool
	x  interface{}
	AB bool
}

type G358 struct {
	g343
	x *string `json:"a b,"`
}

type G359 struct {
	*g327
	B []int
}

type G360 struct {
	C uint8
	B int `json:"C,omitemptyx,string"`
}

type G361 struct {
	G359
	x  *string
	é  int   `json:"世界,"`
	AB uint8 `json:"a b,"`
	g345
	MyInt1
}

type g362 struct {
	g328
}

type g363 struct {
}

type g364 struct {
	g345
	Å int `json:"A, string"`
	A int `json:"k1,string,omitempty"`
	G348
	*G360 `json:"B"`
	B     int
}

type G365 struct {
	g362
	C uint8
	*g364
	G361
}

type G366 struct {
	Å *string `json:"B"`
	x *string `json:"-,omitemptyx,string"`
}

type G367 struct {
	g363
	y int
	x bool `json:"世界,string,omitempty"`
	Å []int
}

type G368 struct {
	*g364
	G354
}

type g369 struct {
	g363
	*g362
	B string
	g345
}

type g370 struct {
	é  bool  `json:"A,stringomitempty"`
	AB uint8 `json:"1,omitempty"`
}

type G371 struct {
	x bool `json:"a'b,"`
	G366
	*G348 `json:",omitempty"`
}

type G372 struct {
	x string `json:"a,string"`
	y []int  `json:"1"`
}

type g373 struct {
	*G360
	Å uint8 `json:"世界,omitemptyx,string"`
	é int   `json:"k1,omitemptyx,string"`
	g364
	y bool `json:"k1,omitempty "`
	myInt1
}

type g374 struct {
	*g364
	é  bool
	AB int
	Å  []int `json:"k1,"`
	G367
}

type G375 struct {
	*G372
	C string `json:"1"`
}

type G376 struct {
	C *string `json:",stringomitempty"`
	x *int
	y int `json:""`
	*g362
	Å    *int
	G360 `json:"B"`
}

type G377 struct {
	y string `json:"é"`
	B bool   `json:"A,omitempty"`
	é int    `json:"a,bogus"`
	MyInt2
}

type G378 struct {
	x  int `json:"1,string"`
	AB []int
	B  *string `json:"é,string,omitempty"`
	G359
}

type G379 struct {
	x int `json:"A!#$%&()*+-./:<=>?@[]^_{|}~, string"`
	y *int
	G372
}

type G380 struct {
	A uint8 `json:"A,string,omitempty"`
	g362
	*G377
	Å interface{} `json:"A"`
	*G361
}

type G381 struct {
	é *int
	B uint8 `json:"a'b,string,omitempty"`
	x *int
	Å string
	y string `json:"k1,"`
}

type g382 struct {
	é    uint8 `foo:"1" json:"zz,omitempty"`
	G379 `json:"emb,omitempty"`
	A    int `json:"A"`
	G377
	Å string
}

type G383 struct {
	y interface{} `json:"a b"`
	A int
	B string
	G371
	x  *int    `json:"A,omitemptyx,string"`
	AB *string `json:""`
}

type g384 struct {
	G378
	Å []int
	y []int
	x []int `json:"C"`
	*G371
}

type G385 struct {
	AB *string `json:"a/b,string"`
	C  int     `json:","`
	*g382
	G375
	G367
}

type g386 struct {
	Å bool
	*g364
}

type G387 struct {
	*G372
	C *int `json:",omitempty,string"`
	A []int
	x int `json:"-,string"`
	G367
	Å bool
}

type g388 struct {
	*g364
	A int `json:"A"`
	g363
}

type G389 struct {
	*G387
	é bool `json:"é,omitempty"`
	G379
	*G367
	MyInt2
}

type g390 struct {
	x bool `foo:"1" json:"zz,omitempty"`
	G387
}

type G391 struct {
	g382
	G378
	G367
	Å string `json:"1,omitempty"`
}

type G392 struct {
	G387
	x    string `json:"a,stringomitempty"`
	A    int    `json:"-,omitempty,string"`
	G378 `json:"-"`
}

type g393 struct {
	x uint8 `json:"a,omitempty"`
	myInt0
}

type g394 struct {
	G387
	*G381
}

type g395 struct {
	Å string
	B string `json:"x,omitemptyx,string"`
	y int    `json:"a/b,omitempty"`
	g382
	*G367
	MyInt2
}

type g396 struct {
	*G378
	A string `foo:"1" json:"zz,omitempty"`
	Å *int   `json:"a"`
	G366
	myInt0
}

type g397 struct {
	A uint8 `json:"a b,stringomitempty"`
	G371
	C     []int `json:"A!#$%&()*+-./:<=>?@[]^_{|}~"`
	*G387 `json:"emb,omitempty"`
	y     bool `json:"a b, string"`
}

type G398 struct {
	Å     int
	A     string `json:"A,stringomitempty"`
	*G367 `json:"-"`
	B     []int `json:"A!#$%&()*+-./:<=>?@[]^_{|}~"`
	é     *int  `json:"é"`
}

type g399 struct {
	é  string
	AB []int
	A  uint8 `json:"A,omitempty "`
	g370
	x int  `json:"世界,omitempty "`
	B *int `json:"x,bogus"`
	*G372
}

type g400 struct {
	C string
	*g382
	é *string
	*G378
}

type g401 struct {
	*g393
	G377
	AB string
}

type G402 struct {
	G372 `json:"B"`
	*G381
	*G398
	y bool
	MyInt0
}

type g403 struct {
	y string `json:"k1,omitemptyx,string"`
	g399
	g370
	C *string `json:"世界, string"`
	*G371
}

type g404 struct {
	y []int `json:"x"`
	*g370
	*g401
	g382
}

type G405 struct {
	*g370
	*g382
	A *string `xml:"q"`
}

type G406 struct {
	C  uint8
	AB uint8 `json:"k1,omitempty"`
	é  uint8
	MyInt1
}

type g407 struct {
	y *int `json:"a/b,string"`
	x *string
	C *string `json:"a'b,omitempty"`
}

type g408 struct {
	Å *string `json:"B, string"`
	MyInt0
}

type G409 struct {
	B    int
	Å    uint8 `json:", string"`
	g399 `json:"emb,omitempty"`
	C    []int `json:"-,"`
	*g393
	é string
}

type G410 struct {
	*G378
	G381
}

type g411 struct {
	*g408
	y bool
}

type g412 struct {
	Å  interface{}
	B  uint8       `json:"k1,omitempty "`
	AB interface{} `json:"x,"`
}

type G413 struct {
	C int `json:"1"`
}

type g414 struct {
	AB interface{} `json:"a'b"`
	é  int         `json:A`
	B  uint8       `json:"a,stringomitempty"`
	*g382
	y bool
	C interface{} `json:"a\\b"`
	g408
}

type g415 struct {
	x int
	A string `json:"a b"`
	é *int   `json:"x,string"`
	*g401
	*G398
}

type G416 struct {
	B uint8 `json:"x"`
	G413
	g407
}

type G417 struct {
}

type g418 struct {
	A    bool
	AB   bool `json:"a b,bogus"`
	G409 `json:"-"`
	y    bool
}

type g419 struct {
	A string `json:"-, string"`
	x int
	é *string `json:"x,omitempty"`
}

var structTypes = []reflect.Type{
	reflect.TypeOf(g0{}),
	reflect.TypeOf(g1{}),
	reflect.TypeOf(g2{}),
	reflect.TypeOf(G3{}),
	reflect.TypeOf(g4{}),
	reflect.TypeOf(G5{}),
	reflect.TypeOf(g6{}),
	reflect.TypeOf(G7{}),
	reflect.TypeOf(G8{}),
	reflect.TypeOf(g9{}),
	reflect.TypeOf(G10{}),
	reflect.TypeOf(g11{}),
	reflect.TypeOf(G12{}),
	reflect.TypeOf(G13{}),
	reflect.TypeOf(g14{}),
	reflect.TypeOf(G15{}),
	reflect.TypeOf(G16{}),
	reflect.TypeOf(g17{}),
	reflect.TypeOf(g18{}),
	reflect.TypeOf(G19{}),
	reflect.TypeOf(g20{}),
	reflect.TypeOf(G21{}),
	reflect.TypeOf(G22{}),
	reflect.TypeOf(G23{}),
	reflect.TypeOf(G24{}),
	reflect.TypeOf(g25{}),
	reflect.TypeOf(G26{}),
	reflect.TypeOf(g27{}),
	reflect.TypeOf(g28{}),
	reflect.TypeOf(g29{}),
	reflect.TypeOf(g30{}),
	reflect.TypeOf(g31{}),
	reflect.TypeOf(G32{}),
	reflect.TypeOf(G33{}),
	reflect.TypeOf(g34{}),
	reflect.TypeOf(g35{}),
	reflect.TypeOf(G36{}),
	reflect.TypeOf(G37{}),
	reflect.TypeOf(G38{}),
	reflect.TypeOf(g39{}),
	reflect.TypeOf(g40{}),
	reflect.TypeOf(g41{}),
	reflect.TypeOf(g42{}),
	reflect.TypeOf(G43{}),
	reflect.TypeOf(G44{}),
	reflect.TypeOf(g45{}),
	reflect.TypeOf(g46{}),
	reflect.TypeOf(g47{}),
	reflect.TypeOf(g48{}),
	reflect.TypeOf(G49{}),
	reflect.TypeOf(G50{}),
	reflect.TypeOf(g51{}),
	reflect.TypeOf(G52{}),
	reflect.TypeOf(g53{}),
	reflect.TypeOf(g54{}),
	reflect.TypeOf(g55{}),
	reflect.TypeOf(g56{}),
	reflect.TypeOf(g57{}),
	reflect.TypeOf(G58{}),
	reflect.TypeOf(G59{}),
	reflect.TypeOf(g60{}),
	reflect.TypeOf(G61{}),
	reflect.TypeOf(g62{}),
	reflect.TypeOf(G63{}),
	reflect.TypeOf(G64{}),
	reflect.TypeOf(G65{}),
	reflect.TypeOf(G66{}),
	reflect.TypeOf(g67{}),
	reflect.TypeOf(G68{}),
	reflect.TypeOf(G69{}),
	reflect.TypeOf(G70{}),
	reflect.TypeOf(g71{}),
	reflect.TypeOf(G72{}),
	reflect.TypeOf(G73{}),
	reflect.TypeOf(g74{}),
	reflect.TypeOf(G75{}),
	reflect.TypeOf(G76{}),
	reflect.TypeOf(g77{}),
	reflect.TypeOf(G78{}),
	reflect.TypeOf(G79{}),
	reflect.TypeOf(g80{}),
	reflect.TypeOf(G81{}),
	reflect.TypeOf(G82{}),
	reflect.TypeOf(G83{}),
	reflect.TypeOf(g84{}),
	reflect.TypeOf(G85{}),
	reflect.TypeOf(g86{}),
	reflect.TypeOf(G87{}),
	reflect.TypeOf(g88{}),
	reflect.TypeOf(g89{}),
	reflect.TypeOf(g90{}),
	reflect.TypeOf(G91{}),
	reflect.TypeOf(g92{}),
	reflect.TypeOf(G93{}),
	reflect.TypeOf(g94{}),
	reflect.TypeOf(G95{}),
	reflect.TypeOf(g96{}),
	reflect.TypeOf(g97{}),
	reflect.TypeOf(G98{}),
	reflect.TypeOf(G99{}),
	reflect.TypeOf(g100{}),
	reflect.TypeOf(G101{}),
	reflect.TypeOf(G102{}),
	reflect.TypeOf(g103{}),
	reflect.TypeOf(G104{}),
	reflect.TypeOf(g105{}),
	reflect.TypeOf(g106{}),
	reflect.TypeOf(G107{}),
	reflect.TypeOf(G108{}),
	reflect.TypeOf(g109{}),
	reflect.TypeOf(G110{}),
	reflect.TypeOf(g111{}),
	reflect.TypeOf(g112{}),
	reflect.TypeOf(g113{}),
	reflect.TypeOf(g114{}),
	reflect.TypeOf(G115{}),
	reflect.TypeOf(G116{}),
	reflect.TypeOf(g117{}),
	reflect.TypeOf(G118{}),
	reflect.TypeOf(g119{}),
	reflect.TypeOf(G120{}),
	reflect.TypeOf(G121{}),
	reflect.TypeOf(G122{}),
	reflect.TypeOf(g123{}),
	reflect.TypeOf(G124{}),
	reflect.TypeOf(g125{}),
	reflect.TypeOf(g126{}),
	reflect.TypeOf(G127{}),
	reflect.TypeOf(g128{}),
	reflect.TypeOf(g129{}),
	reflect.TypeOf(g130{}),
	reflect.TypeOf(g131{}),
	reflect.TypeOf(G132{}),
	reflect.TypeOf(g133{}),
	reflect.TypeOf(G134{}),
	reflect.TypeOf(G135{}),
	reflect.TypeOf(G136{}),
	reflect.TypeOf(G137{}),
	reflect.TypeOf(g138{}),
	reflect.TypeOf(g139{}),
	reflect.TypeOf(g140{}),
	reflect.TypeOf(G141{}),
	reflect.TypeOf(G142{}),
	reflect.TypeOf(g143{}),
	reflect.TypeOf(g144{}),
	reflect.TypeOf(G145{}),
	reflect.TypeOf(G146{}),
	reflect.TypeOf(g147{}),
	reflect.TypeOf(g148{}),
	reflect.TypeOf(G149{}),
	reflect.TypeOf(g150{}),
	reflect.TypeOf(G151{}),
	reflect.TypeOf(G152{}),
	reflect.TypeOf(g153{}),
	reflect.TypeOf(g154{}),
	reflect.TypeOf(G155{}),
	reflect.TypeOf(g156{}),
	reflect.TypeOf(g157{}),
	reflect.TypeOf(G158{}),
	reflect.TypeOf(g159{}),
	reflect.TypeOf(g160{}),
	reflect.TypeOf(G161{}),
	reflect.TypeOf(g162{}),
	reflect.TypeOf(G163{}),
	reflect.TypeOf(G164{}),
	reflect.TypeOf(g165{}),
	reflect.TypeOf(G166{}),
	reflect.TypeOf(G167{}),
	reflect.TypeOf(g168{}),
	reflect.TypeOf(G169{}),
	reflect.TypeOf(g170{}),
	reflect.TypeOf(G171{}),
	reflect.TypeOf(g172{}),
	reflect.TypeOf(g173{}),
	reflect.TypeOf(G174{}),
	reflect.TypeOf(g175{}),
	reflect.TypeOf(g176{}),
	reflect.TypeOf(g177{}),
	reflect.TypeOf(g178{}),
	reflect.TypeOf(G179{}),
	reflect.TypeOf(G180{}),
	reflect.TypeOf(G181{}),
	reflect.TypeOf(G182{}),
	reflect.TypeOf(G183{}),
	reflect.TypeOf(g184{}),
	reflect.TypeOf(g185{}),
	reflect.TypeOf(G186{}),
	reflect.TypeOf(G187{}),
	reflect.TypeOf(g188{}),
	reflect.TypeOf(G189{}),
	reflect.TypeOf(g190{}),
	reflect.TypeOf(G191{}),
	reflect.TypeOf(g192{}),
	reflect.TypeOf(G193{}),
	reflect.TypeOf(G194{}),
	reflect.TypeOf(G195{}),
	reflect.TypeOf(g196{}),
	reflect.TypeOf(g197{}),
	reflect.TypeOf(g198{}),
	reflect.TypeOf(G199{}),
	reflect.TypeOf(G200{}),
	reflect.TypeOf(G201{}),
	reflect.TypeOf(g202{}),
	reflect.TypeOf(G203{}),
	reflect.TypeOf(G204{}),
	reflect.TypeOf(G205{}),
	reflect.TypeOf(G206{}),
	reflect.TypeOf(g207{}),
	reflect.TypeOf(G208{}),
	reflect.TypeOf(G209{}),
	reflect.TypeOf(G210{}),
	reflect.TypeOf(g211{}),
	reflect.TypeOf(G212{}),
	reflect.TypeOf(g213{}),
	reflect.TypeOf(G214{}),
	reflect.TypeOf(G215{}),
	reflect.TypeOf(G216{}),
	reflect.TypeOf(g217{}),
	reflect.TypeOf(g218{}),
	reflect.TypeOf(g219{}),
	reflect.TypeOf(G220{}),
	reflect.TypeOf(G221{}),
	reflect.TypeOf(g222{}),
	reflect.TypeOf(G223{}),
	reflect.TypeOf(G224{}),
	reflect.TypeOf(G225{}),
	reflect.TypeOf(G226{}),
	reflect.TypeOf(g227{}),
	reflect.TypeOf(g228{}),
	reflect.TypeOf(G229{}),
	reflect.TypeOf(G230{}),
	reflect.TypeOf(G231{}),
	reflect.TypeOf(G232{}),
	reflect.TypeOf(g233{}),
	reflect.TypeOf(g234{}),
	reflect.TypeOf(g235{}),
	reflect.TypeOf(g236{}),
	reflect.TypeOf(G237{}),
	reflect.TypeOf(g238{}),
	reflect.TypeOf(G239{}),
	reflect.TypeOf(G240{}),
	reflect.TypeOf(G241{}),
	reflect.TypeOf(g242{}),
	reflect.TypeOf(g243{}),
	reflect.TypeOf(G244{}),
	reflect.TypeOf(G245{}),
	reflect.TypeOf(G246{}),
	reflect.TypeOf(g247{}),
	reflect.TypeOf(g248{}),
	reflect.TypeOf(g249{}),
	reflect.TypeOf(G250{}),
	reflect.TypeOf(g251{}),
	reflect.TypeOf(G252{}),
	reflect.TypeOf(G253{}),
	reflect.TypeOf(G254{}),
	reflect.TypeOf(G255{}),
	reflect.TypeOf(G256{}),
	reflect.TypeOf(G257{}),
	reflect.TypeOf(G258{}),
	reflect.TypeOf(G259{}),
	reflect.TypeOf(G260{}),
	reflect.TypeOf(g261{}),
	reflect.TypeOf(g262{}),
	reflect.TypeOf(G263{}),
	reflect.TypeOf(g264{}),
	reflect.TypeOf(g265{}),
	reflect.TypeOf(g266{}),
	reflect.TypeOf(g267{}),
	reflect.TypeOf(g268{}),
	reflect.TypeOf(G269{}),
	reflect.TypeOf(G270{}),
	reflect.TypeOf(g271{}),
	reflect.TypeOf(g272{}),
	reflect.TypeOf(G273{}),
	reflect.TypeOf(G274{}),
	reflect.TypeOf(g275{}),
	reflect.TypeOf(G276{}),
	reflect.TypeOf(G277{}),
	reflect.TypeOf(G278{}),
	reflect.TypeOf(g279{}),
	reflect.TypeOf(g280{}),
	reflect.TypeOf(g281{}),
	reflect.TypeOf(G282{}),
	reflect.TypeOf(G283{}),
	reflect.TypeOf(g284{}),
	reflect.TypeOf(g285{}),
	reflect.TypeOf(G286{}),
	reflect.TypeOf(g287{}),
	reflect.TypeOf(G288{}),
	reflect.TypeOf(G289{}),
	reflect.TypeOf(G290{}),
	reflect.TypeOf(G291{}),
	reflect.TypeOf(g292{}),
	reflect.TypeOf(g293{}),
	reflect.TypeOf(g294{}),
	reflect.TypeOf(G295{}),
	reflect.TypeOf(g296{}),
	reflect.TypeOf(G297{}),
	reflect.TypeOf(g298{}),
	reflect.TypeOf(G299{}),
	reflect.TypeOf(g300{}),
	reflect.TypeOf(G301{}),
	reflect.TypeOf(g302{}),
	reflect.TypeOf(g303{}),
	reflect.TypeOf(G304{}),
	reflect.TypeOf(g305{}),
	reflect.TypeOf(G306{}),
	reflect.TypeOf(G307{}),
	reflect.TypeOf(g308{}),
	reflect.TypeOf(G309{}),
	reflect.TypeOf(G310{}),
	reflect.TypeOf(g311{}),
	reflect.TypeOf(G312{}),
	reflect.TypeOf(g313{}),
	reflect.TypeOf(G314{}),
	reflect.TypeOf(G315{}),
	reflect.TypeOf(G316{}),
	reflect.TypeOf(g317{}),
	reflect.TypeOf(g318{}),
	reflect.TypeOf(g319{}),
	reflect.TypeOf(g320{}),
	reflect.TypeOf(G321{}),
	reflect.TypeOf(g322{}),
	reflect.TypeOf(G323{}),
	reflect.TypeOf(G324{}),
	reflect.TypeOf(g325{}),
	reflect.TypeOf(g326{}),
	reflect.TypeOf(g327{}),
	reflect.TypeOf(g328{}),
	reflect.TypeOf(G329{}),
	reflect.TypeOf(G330{}),
	reflect.TypeOf(G331{}),
	reflect.TypeOf(G332{}),
	reflect.TypeOf(G333{}),
	reflect.TypeOf(g334{}),
	reflect.TypeOf(g335{}),
	reflect.TypeOf(G336{}),
	reflect.TypeOf(G337{}),
	reflect.TypeOf(G338{}),
	reflect.TypeOf(g339{}),
	reflect.TypeOf(G340{}),
	reflect.TypeOf(G341{}),
	reflect.TypeOf(g342{}),
	reflect.TypeOf(g343{}),
	reflect.TypeOf(G344{}),
	reflect.TypeOf(g345{}),
	reflect.TypeOf(g346{}),
	reflect.TypeOf(g347{}),
	reflect.TypeOf(G348{}),
	reflect.TypeOf(G349{}),
	reflect.TypeOf(G350{}),
	reflect.TypeOf(g351{}),
	reflect.TypeOf(g352{}),
	reflect.TypeOf(g353{}),
	reflect.TypeOf(G354{}),
	reflect.TypeOf(g355{}),
	reflect.TypeOf(G356{}),
	reflect.TypeOf(g357{}),
	reflect.TypeOf(G358{}),
	reflect.TypeOf(G359{}),
	reflect.TypeOf(G360{}),
	reflect.TypeOf(G361{}),
	reflect.TypeOf(g362{}),
	reflect.TypeOf(g363{}),
	reflect.TypeOf(g364{}),
	reflect.TypeOf(G365{}),
	reflect.TypeOf(G366{}),
	reflect.TypeOf(G367{}),
	reflect.TypeOf(G368{}),
	reflect.TypeOf(g369{}),
	reflect.TypeOf(g370{}),
	reflect.TypeOf(G371{}),
	reflect.TypeOf(G372{}),
	reflect.TypeOf(g373{}),
	reflect.TypeOf(g374{}),
	reflect.TypeOf(G375{}),
	reflect.TypeOf(G376{}),
	reflect.TypeOf(G377{}),
	reflect.TypeOf(G378{}),
	reflect.TypeOf(G379{}),
	reflect.TypeOf(G380{}),
	reflect.TypeOf(G381{}),
	reflect.TypeOf(g382{}),
	reflect.TypeOf(G383{}),
	reflect.TypeOf(g384{}),
	reflect.TypeOf(G385{}),
	reflect.TypeOf(g386{}),
	reflect.TypeOf(G387{}),
	reflect.TypeOf(g388{}),
	reflect.TypeOf(G389{}),
	reflect.TypeOf(g390{}),
	reflect.TypeOf(G391{}),
	reflect.TypeOf(G392{}),
	reflect.TypeOf(g393{}),
	reflect.TypeOf(g394{}),
	reflect.TypeOf(g395{}),
	reflect.TypeOf(g396{}),
	reflect.TypeOf(g397{}),
	reflect.TypeOf(G398{}),
	reflect.TypeOf(g399{}),
	reflect.TypeOf(g400{}),
	reflect.TypeOf(g401{}),
	reflect.TypeOf(G402{}),
	reflect.TypeOf(g403{}),
	reflect.TypeOf(g404{}),
	reflect.TypeOf(G405{}),
	reflect.TypeOf(G406{}),
	reflect.TypeOf(g407{}),
	reflect.TypeOf(g408{}),
	reflect.TypeOf(G409{}),
	reflect.TypeOf(G410{}),
	reflect.TypeOf(g411{}),
	reflect.TypeOf(g412{}),
	reflect.TypeOf(G413{}),
	reflect.TypeOf(g414{}),
	reflect.TypeOf(g415{}),
	reflect.TypeOf(G416{}),
	reflect.TypeOf(G417{}),
	reflect.TypeOf(g418{}),
	reflect.TypeOf(g419{}),
}
