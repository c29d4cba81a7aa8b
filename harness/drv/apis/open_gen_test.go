// generated by tools/genopen.py
package apis

import (
	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/http"
	"time"
)

var _ time.Time

type G0 struct {
	F0 *int        `api:"" enc:"f"`
	R0 api.Request `url:"/a"`
}

func (*G0) Do(ctx.C) error { return nil }

type G1 struct {
	F0 float64     `api:"auth" enc:"f"`
	R0 api.Request `url:"/a"`
}

func (*G1) Do(ctx.C) error { return nil }

type G2 struct {
	F0 int         `api:"required" enc:"f"`
	R0 api.Request `url:"/a"`
}

func (*G2) Do(ctx.C) error { return nil }

type G3 struct {
	R0 api.Request `url:"/a"`
	F0 *inner      `api:"required,auth" json:"f"`
}

func (*G3) Do(ctx.C) error { return nil }

type G4 struct {
	F0 UID         `api:"out" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G4) Do(ctx.C) error { return nil }

type G5 struct {
	F0 string      `api:"auth,out" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G5) Do(ctx.C) error { return nil }

type G6 struct {
	F0 any         `api:"required,out" enc:"f"`
	R0 api.Request `url:"/a"`
}

func (*G6) Do(ctx.C) error { return nil }

type G7 struct {
	R0 api.Request `url:"/a"`
	F0 UID         `api:"required,out,auth" enc:"f"`
}

func (*G7) Do(ctx.C) error { return nil }

type G8 struct {
	F0 UID         `api:"in" enc:"f"`
	R0 api.Request `url:"/a"`
}

func (*G8) Do(ctx.C) error { return nil }

type G9 struct {
	R0 api.Request `url:"/a"`
	F0 []int       `api:"required,in" enc:"f"`
}

func (*G9) Do(ctx.C) error { return nil }

type G10 struct {
	F0 string      `api:"both" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G10) Do(ctx.C) error { return nil }

type G11 struct {
	F0 []inner     `api:"out,in,required" enc:"f"`
	R0 api.Request `url:"/a"`
}

func (*G11) Do(ctx.C) error { return nil }

type G12 struct {
	F0 bool        `api:"" enc:"f"`
	R0 api.Request `url:"/a"`
	F1 string      `api:"auth" enc:"g"`
}

func (*G12) Do(ctx.C) error { return nil }

type G13 struct {
	F1 UID         `api:"out" enc:"g"`
	R0 api.Request `url:"/a"`
	F0 any         `api:"" enc:"f"`
}

func (*G13) Do(ctx.C) error { return nil }

type G14 struct {
	F  float64     `api:"" json:"f"`
	R0 api.Request `url:"/a"`
	F1 bool        `api:"auth,out" enc:"g"`
}

func (*G14) Do(ctx.C) error { return nil }

type G15 struct {
	F1 *inner      `api:"out,required" json:"g"`
	F0 *int        `api:"" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G15) Do(ctx.C) error { return nil }

type G16 struct {
	F0 inner       `api:"" json:"f"`
	F1 bool        `api:"in" enc:"g"`
	R0 api.Request `url:"/a"`
}

func (*G16) Do(ctx.C) error { return nil }

type G17 struct {
	F1 inner       `api:"in,required" json:"g"`
	F  float64     `api:"" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G17) Do(ctx.C) error { return nil }

type G18 struct {
	F  []inner     `api:"auth" json:"f"`
	R0 api.Request `url:"/a"`
	F1 []string    `api:"out" json:"g"`
}

func (*G18) Do(ctx.C) error { return nil }

type G19 struct {
	F0 string      `api:"auth" enc:"f"`
	R0 api.Request `url:"/a"`
	F1 time.Time   `api:"out,required" enc:"g"`
}

func (*G19) Do(ctx.C) error { return nil }

type G20 struct {
	F0 []inner     `api:"auth" json:"f"`
	R0 api.Request `url:"/a"`
	F1 inner       `api:"in" enc:"g"`
}

func (*G20) Do(ctx.C) error { return nil }

type G21 struct {
	F1 bool        `api:"in,required" json:"g"`
	R0 api.Request `url:"/a"`
	F0 []int       `api:"auth" json:"f"`
}

func (*G21) Do(ctx.C) error { return nil }

type G22 struct {
	R0 api.Request `url:"/a"`
	F0 inner       `api:"required" json:"f"`
	F1 string      `api:"auth" enc:"g"`
}

func (*G22) Do(ctx.C) error { return nil }

type G23 struct {
	F0 []string    `api:"required" enc:"f"`
	F1 inner       `api:"out" json:"g"`
	R0 api.Request `url:"/a"`
}

func (*G23) Do(ctx.C) error { return nil }

type G24 struct {
	R0 api.Request `url:"/a"`
	F1 *int        `api:"auth,out" json:"g"`
	F0 bool        `api:"required" json:"f"`
}

func (*G24) Do(ctx.C) error { return nil }

type G25 struct {
	F1 bool        `api:"required,out" enc:"g"`
	F  *int        `api:"required" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G25) Do(ctx.C) error { return nil }

type G26 struct {
	F1 *int        `api:"in" json:"g"`
	F0 float64     `api:"required" enc:"f"`
	R0 api.Request `url:"/a"`
}

func (*G26) Do(ctx.C) error { return nil }

type G27 struct {
	F1 []int          `api:"required,in" json:"g"`
	R0 api.Request    `url:"/a"`
	F0 map[string]int `api:"required" enc:"f"`
}

func (*G27) Do(ctx.C) error { return nil }

type G28 struct {
	F1 []string    `api:"out" json:"g"`
	R0 api.Request `url:"/a"`
	F0 []int       `api:"auth,required" enc:"f"`
}

func (*G28) Do(ctx.C) error { return nil }

type G29 struct {
	G  []int       `api:"out,required" json:"g"`
	F0 []int       `api:"required,auth" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G29) Do(ctx.C) error { return nil }

type G30 struct {
	F0 any         `api:"required,auth" enc:"f"`
	R0 api.Request `url:"/a"`
	F1 string      `api:"in" enc:"g"`
}

func (*G30) Do(ctx.C) error { return nil }

type G31 struct {
	R0 api.Request `url:"/a"`
	F1 int         `api:"in,required" enc:"g"`
	F0 int         `api:"required,auth" json:"f"`
}

func (*G31) Do(ctx.C) error { return nil }

type G32 struct {
	F1 *inner      `api:"auth" json:"g"`
	F0 []inner     `api:"out" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G32) Do(ctx.C) error { return nil }

type G33 struct {
	F1 bool        `api:"out" enc:"g"`
	F0 string      `api:"out" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G33) Do(ctx.C) error { return nil }

type G34 struct {
	F1 float64     `api:"out,auth" enc:"g"`
	R0 api.Request `url:"/a"`
	F0 []string    `api:"out" json:"f"`
}

func (*G34) Do(ctx.C) error { return nil }

type G35 struct {
	F1 inner          `api:"required,out" enc:"g"`
	F0 map[string]int `api:"out" enc:"f"`
	R0 api.Request    `url:"/a"`
}

func (*G35) Do(ctx.C) error { return nil }

type G36 struct {
	F0 bool        `api:"out" enc:"f"`
	F1 time.Time   `api:"in" json:"g"`
	R0 api.Request `url:"/a"`
}

func (*G36) Do(ctx.C) error { return nil }

type G37 struct {
	R0 api.Request `url:"/a"`
	F1 []inner     `api:"required,in" enc:"g"`
	F0 []string    `api:"out" json:"f"`
}

func (*G37) Do(ctx.C) error { return nil }

type G38 struct {
	G  *inner      `api:"out" json:"g"`
	F0 UID         `api:"out,auth" enc:"f"`
	R0 api.Request `url:"/a"`
}

func (*G38) Do(ctx.C) error { return nil }

type G39 struct {
	F0 []inner     `api:"out,auth" json:"f"`
	R0 api.Request `url:"/a"`
	F1 time.Time   `api:"required,out" enc:"g"`
}

func (*G39) Do(ctx.C) error { return nil }

type G40 struct {
	F  inner       `api:"out,auth" json:"f"`
	F1 *int        `api:"in" json:"g"`
	R0 api.Request `url:"/a"`
}

func (*G40) Do(ctx.C) error { return nil }

type G41 struct {
	F0 *int        `api:"auth,out" enc:"f"`
	F1 int         `api:"in,required" json:"g"`
	R0 api.Request `url:"/a"`
}

func (*G41) Do(ctx.C) error { return nil }

type G42 struct {
	F0 any         `api:"out,required" json:"f"`
	R0 api.Request `url:"/a"`
	F1 *int        `api:"auth" enc:"g"`
}

func (*G42) Do(ctx.C) error { return nil }

type G43 struct {
	F  inner       `api:"out,required" json:"f"`
	F1 []inner     `api:"out" json:"g"`
	R0 api.Request `url:"/a"`
}

func (*G43) Do(ctx.C) error { return nil }

type G44 struct {
	F0 inner       `api:"required,out" enc:"f"`
	F1 *inner      `api:"auth,out" json:"g"`
	R0 api.Request `url:"/a"`
}

func (*G44) Do(ctx.C) error { return nil }

type G45 struct {
	F1 int         `api:"required,out" enc:"g"`
	R0 api.Request `url:"/a"`
	F0 inner       `api:"out,required" enc:"f"`
}

func (*G45) Do(ctx.C) error { return nil }

type G46 struct {
	F0 string      `api:"out,required" enc:"f"`
	F1 *int        `api:"in" enc:"g"`
	R0 api.Request `url:"/a"`
}

func (*G46) Do(ctx.C) error { return nil }

type G47 struct {
	F1 any         `api:"in,required" json:"g"`
	R0 api.Request `url:"/a"`
	F0 inner       `api:"out,required" json:"f"`
}

func (*G47) Do(ctx.C) error { return nil }

type G48 struct {
	F1 bool        `api:"out" enc:"g"`
	R0 api.Request `url:"/a"`
	F0 any         `api:"auth,out,required" enc:"f"`
}

func (*G48) Do(ctx.C) error { return nil }

type G49 struct {
	F0 []string    `api:"out,required,auth" json:"f"`
	R0 api.Request `url:"/a"`
	F1 []inner     `api:"required,out" enc:"g"`
}

func (*G49) Do(ctx.C) error { return nil }

type G50 struct {
	F0 time.Time   `api:"auth,required,out" json:"f"`
	R0 api.Request `url:"/a"`
	F1 inner       `api:"in" json:"g"`
}

func (*G50) Do(ctx.C) error { return nil }

type G51 struct {
	R0 api.Request `url:"/a"`
	F1 *inner      `api:"required,in" json:"g"`
	F0 int         `api:"out,auth,required" enc:"f"`
}

func (*G51) Do(ctx.C) error { return nil }

type G52 struct {
	F1 *int        `api:"auth" enc:"g"`
	R0 api.Request `url:"/a"`
	F0 []inner     `api:"in" enc:"f"`
}

func (*G52) Do(ctx.C) error { return nil }

type G53 struct {
	R0 api.Request `url:"/a"`
	F  []int       `api:"in" json:"f"`
	F1 any         `api:"out" json:"g"`
}

func (*G53) Do(ctx.C) error { return nil }

type G54 struct {
	R0 api.Request    `url:"/a"`
	F0 map[string]int `api:"in" enc:"f"`
	F1 []int          `api:"auth,out" enc:"g"`
}

func (*G54) Do(ctx.C) error { return nil }

type G55 struct {
	F  []int       `api:"in" json:"f"`
	R0 api.Request `url:"/a"`
	F1 bool        `api:"required,out" enc:"g"`
}

func (*G55) Do(ctx.C) error { return nil }

type G56 struct {
	R0 api.Request `url:"/a"`
	F0 []inner     `api:"in" json:"f"`
	F1 UID         `api:"in" json:"g"`
}

func (*G56) Do(ctx.C) error { return nil }

type G57 struct {
	F0 float64        `api:"in" enc:"f"`
	F1 map[string]int `api:"required,in" json:"g"`
	R0 api.Request    `url:"/a"`
}

func (*G57) Do(ctx.C) error { return nil }

type G58 struct {
	F1 float64     `api:"auth" enc:"g"`
	R0 api.Request `url:"/a"`
	F0 bool        `api:"required,in" json:"f"`
}

func (*G58) Do(ctx.C) error { return nil }

type G59 struct {
	R0 api.Request `url:"/a"`
	F  bool        `api:"in,required" json:"f"`
	F1 inner       `api:"out" enc:"g"`
}

func (*G59) Do(ctx.C) error { return nil }

type G60 struct {
	F0 *inner      `api:"in,required" json:"f"`
	G  UID         `api:"out,auth" json:"g"`
	R0 api.Request `url:"/a"`
}

func (*G60) Do(ctx.C) error { return nil }

type G61 struct {
	F0 float64     `api:"required,in" json:"f"`
	R0 api.Request `url:"/a"`
	F1 int         `api:"required,out" enc:"g"`
}

func (*G61) Do(ctx.C) error { return nil }

type G62 struct {
	R0 api.Request `url:"/a"`
	F1 UID         `api:"in" enc:"g"`
	F  float64     `api:"required,in" json:"f"`
}

func (*G62) Do(ctx.C) error { return nil }

type G63 struct {
	R0 api.Request `url:"/a"`
	F1 bool        `api:"in,required" json:"g"`
	F  inner       `api:"required,in" json:"f"`
}

func (*G63) Do(ctx.C) error { return nil }

type G64 struct {
	R0 api.Request `url:"/a"`
	F  inner       `api:"in,out" json:"f"`
	F1 bool        `api:"auth" json:"g"`
}

func (*G64) Do(ctx.C) error { return nil }

type G65 struct {
	F0 time.Time   `api:"in,out" json:"f"`
	R0 api.Request `url:"/a"`
	F1 time.Time   `api:"out" enc:"g"`
}

func (*G65) Do(ctx.C) error { return nil }

type G66 struct {
	F0 []inner     `api:"in,out" json:"f"`
	F1 inner       `api:"out,auth" enc:"g"`
	R0 api.Request `url:"/a"`
}

func (*G66) Do(ctx.C) error { return nil }

type G67 struct {
	F1 any         `api:"required,out" enc:"g"`
	F0 int         `api:"both" enc:"f"`
	R0 api.Request `url:"/a"`
}

func (*G67) Do(ctx.C) error { return nil }

type G68 struct {
	R0 api.Request `url:"/a"`
	F1 []string    `api:"in" json:"g"`
	F0 UID         `api:"both" enc:"f"`
}

func (*G68) Do(ctx.C) error { return nil }

type G69 struct {
	R0 api.Request `url:"/a"`
	F1 bool        `api:"required,in" json:"g"`
	F0 UID         `api:"out,in" json:"f"`
}

func (*G69) Do(ctx.C) error { return nil }

type G70 struct {
	R0 api.Request `url:"/a"`
	F1 *inner      `api:"auth" enc:"g"`
	F0 inner       `api:"out,required,in" json:"f"`
}

func (*G70) Do(ctx.C) error { return nil }

type G71 struct {
	F1 time.Time   `api:"out" enc:"g"`
	F0 *inner      `api:"out,required,in" json:"f"`
	R0 api.Request `url:"/a"`
}

func (*G71) Do(ctx.C) error { return nil }

type G72 struct {
	R0 api.Request `url:"/a"`
	F0 *int        `api:"in,required,out" enc:"f"`
	F1 float64     `api:"out,auth" enc:"g"`
}

func (*G72) Do(ctx.C) error { return nil }

type G73 struct {
	F0 map[string]int `api:"both,required" enc:"f"`
	R0 api.Request    `url:"/a"`
	G  *inner         `api:"required,out" json:"g"`
}

func (*G73) Do(ctx.C) error { return nil }

type G74 struct {
	R0 api.Request `url:"/a"`
	F0 UID         `api:"both,required" enc:"f"`
	G  float64     `api:"in" json:"g"`
}

func (*G74) Do(ctx.C) error { return nil }

type G75 struct {
	F0 int         `api:"required,both" json:"f"`
	F1 any         `api:"in,required" json:"g"`
	R0 api.Request `url:"/a"`
}

func (*G75) Do(ctx.C) error { return nil }

type G76 struct {
	R0 api.Request `url:"/b"`
	F  time.Time   `api:"" json:"f"`
}

func (*G76) Do(ctx.C) error { return nil }

type G77 struct {
	F0 *int        `api:"auth" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G77) Do(ctx.C) error { return nil }

type G78 struct {
	R0 api.Request    `url:"/b"`
	F0 map[string]int `api:"required" json:"f"`
}

func (*G78) Do(ctx.C) error { return nil }

type G79 struct {
	R0 api.Request `url:"/b"`
	F0 float64     `api:"required,auth" enc:"f"`
}

func (*G79) Do(ctx.C) error { return nil }

type G80 struct {
	F0 map[string]int `api:"out" json:"f"`
	R0 api.Request    `url:"/b"`
}

func (*G80) Do(ctx.C) error { return nil }

type G81 struct {
	R0 api.Request `url:"/b"`
	F0 bool        `api:"out,auth" enc:"f"`
}

func (*G81) Do(ctx.C) error { return nil }

type G82 struct {
	R0 api.Request `url:"/b"`
	F0 []string    `api:"required,out" enc:"f"`
}

func (*G82) Do(ctx.C) error { return nil }

type G83 struct {
	F0 any         `api:"required,auth,out" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G83) Do(ctx.C) error { return nil }

type G84 struct {
	R0 api.Request `url:"/b"`
	F  UID         `api:"in" json:"f"`
}

func (*G84) Do(ctx.C) error { return nil }

type G85 struct {
	F0 inner       `api:"required,in" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G85) Do(ctx.C) error { return nil }

type G86 struct {
	F  *inner      `api:"both" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G86) Do(ctx.C) error { return nil }

type G87 struct {
	R0 api.Request `url:"/b"`
	F0 *inner      `api:"both,required" json:"f"`
}

func (*G87) Do(ctx.C) error { return nil }

type G88 struct {
	F0 bool           `api:"" enc:"f"`
	F1 map[string]int `api:"auth" json:"g"`
	R0 api.Request    `url:"/b"`
}

func (*G88) Do(ctx.C) error { return nil }

type G89 struct {
	F1 any         `api:"out" enc:"g"`
	F0 *int        `api:"" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G89) Do(ctx.C) error { return nil }

type G90 struct {
	F0 float64     `api:"" enc:"f"`
	R0 api.Request `url:"/b"`
	F1 UID         `api:"out,auth" json:"g"`
}

func (*G90) Do(ctx.C) error { return nil }

type G91 struct {
	R0 api.Request    `url:"/b"`
	F0 *int           `api:"" json:"f"`
	F1 map[string]int `api:"out,required" enc:"g"`
}

func (*G91) Do(ctx.C) error { return nil }

type G92 struct {
	F  []string    `api:"" json:"f"`
	R0 api.Request `url:"/b"`
	F1 []inner     `api:"in" json:"g"`
}

func (*G92) Do(ctx.C) error { return nil }

type G93 struct {
	F1 []string    `api:"required,in" enc:"g"`
	F0 []int       `api:"" enc:"f"`
	R0 api.Request `url:"/b"`
}

func (*G93) Do(ctx.C) error { return nil }

type G94 struct {
	R0 api.Request `url:"/b"`
	F1 []int       `api:"out" json:"g"`
	F0 UID         `api:"auth" enc:"f"`
}

func (*G94) Do(ctx.C) error { return nil }

type G95 struct {
	F1 *inner      `api:"required,out" json:"g"`
	F0 *int        `api:"auth" enc:"f"`
	R0 api.Request `url:"/b"`
}

func (*G95) Do(ctx.C) error { return nil }

type G96 struct {
	F1 map[string]int `api:"in" enc:"g"`
	F0 []inner        `api:"auth" json:"f"`
	R0 api.Request    `url:"/b"`
}

func (*G96) Do(ctx.C) error { return nil }

type G97 struct {
	F1 inner       `api:"in,required" json:"g"`
	R0 api.Request `url:"/b"`
	F0 any         `api:"auth" json:"f"`
}

func (*G97) Do(ctx.C) error { return nil }

type G98 struct {
	R0 api.Request `url:"/b"`
	F0 bool        `api:"required" json:"f"`
	F1 *inner      `api:"auth" enc:"g"`
}

func (*G98) Do(ctx.C) error { return nil }

type G99 struct {
	F1 time.Time   `api:"out" json:"g"`
	R0 api.Request `url:"/b"`
	F0 int         `api:"required" enc:"f"`
}

func (*G99) Do(ctx.C) error { return nil }

type G100 struct {
	F0 map[string]int `api:"required" json:"f"`
	G  int            `api:"out,auth" json:"g"`
	R0 api.Request    `url:"/b"`
}

func (*G100) Do(ctx.C) error { return nil }

type G101 struct {
	F0 *int        `api:"required" enc:"f"`
	R0 api.Request `url:"/b"`
	F1 any         `api:"out,required" enc:"g"`
}

func (*G101) Do(ctx.C) error { return nil }

type G102 struct {
	R0 api.Request `url:"/b"`
	F0 *int        `api:"required" json:"f"`
	F1 *int        `api:"in" json:"g"`
}

func (*G102) Do(ctx.C) error { return nil }

type G103 struct {
	R0 api.Request `url:"/b"`
	F0 []inner     `api:"required" enc:"f"`
	F1 string      `api:"required,in" enc:"g"`
}

func (*G103) Do(ctx.C) error { return nil }

type G104 struct {
	F1 string      `api:"out" json:"g"`
	F0 []int       `api:"required,auth" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G104) Do(ctx.C) error { return nil }

type G105 struct {
	R0 api.Request `url:"/b"`
	F1 float64     `api:"required,out" enc:"g"`
	F0 UID         `api:"required,auth" enc:"f"`
}

func (*G105) Do(ctx.C) error { return nil }

type G106 struct {
	F1 int         `api:"in" json:"g"`
	F0 []int       `api:"auth,required" enc:"f"`
	R0 api.Request `url:"/b"`
}

func (*G106) Do(ctx.C) error { return nil }

type G107 struct {
	R0 api.Request `url:"/b"`
	F0 any         `api:"auth,required" enc:"f"`
	F1 string      `api:"required,in" enc:"g"`
}

func (*G107) Do(ctx.C) error { return nil }

type G108 struct {
	R0 api.Request `url:"/b"`
	F1 *inner      `api:"auth" enc:"g"`
	F0 time.Time   `api:"out" json:"f"`
}

func (*G108) Do(ctx.C) error { return nil }

type G109 struct {
	F1 []string    `api:"out" enc:"g"`
	F0 []inner     `api:"out" enc:"f"`
	R0 api.Request `url:"/b"`
}

func (*G109) Do(ctx.C) error { return nil }

type G110 struct {
	R0 api.Request `url:"/b"`
	F  []inner     `api:"out" json:"f"`
	F1 bool        `api:"out,auth" json:"g"`
}

func (*G110) Do(ctx.C) error { return nil }

type G111 struct {
	F1 string      `api:"out,required" enc:"g"`
	F0 any         `api:"out" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G111) Do(ctx.C) error { return nil }

type G112 struct {
	F0 time.Time   `api:"out" json:"f"`
	R0 api.Request `url:"/b"`
	F1 []inner     `api:"in" enc:"g"`
}

func (*G112) Do(ctx.C) error { return nil }

type G113 struct {
	F0 UID         `api:"out" enc:"f"`
	F1 []int       `api:"required,in" json:"g"`
	R0 api.Request `url:"/b"`
}

func (*G113) Do(ctx.C) error { return nil }

type G114 struct {
	F0 []inner     `api:"auth,out" json:"f"`
	R0 api.Request `url:"/b"`
	F1 []inner     `api:"out" enc:"g"`
}

func (*G114) Do(ctx.C) error { return nil }

type G115 struct {
	F  *int        `api:"out,auth" json:"f"`
	F1 []int       `api:"out,required" json:"g"`
	R0 api.Request `url:"/b"`
}

func (*G115) Do(ctx.C) error { return nil }

type G116 struct {
	R0 api.Request `url:"/b"`
	F1 []inner     `api:"in" enc:"g"`
	F0 any         `api:"out,auth" enc:"f"`
}

func (*G116) Do(ctx.C) error { return nil }

type G117 struct {
	F1 inner       `api:"required,in" json:"g"`
	F0 []string    `api:"out,auth" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G117) Do(ctx.C) error { return nil }

type G118 struct {
	F1 *int        `api:"auth" enc:"g"`
	R0 api.Request `url:"/b"`
	F0 UID         `api:"required,out" json:"f"`
}

func (*G118) Do(ctx.C) error { return nil }

type G119 struct {
	F1 time.Time   `api:"out" json:"g"`
	F0 []string    `api:"required,out" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G119) Do(ctx.C) error { return nil }

type G120 struct {
	F1 inner       `api:"auth,out" json:"g"`
	R0 api.Request `url:"/b"`
	F0 UID         `api:"out,required" enc:"f"`
}

func (*G120) Do(ctx.C) error { return nil }

type G121 struct {
	F0 map[string]int `api:"out,required" enc:"f"`
	F1 []string       `api:"required,out" enc:"g"`
	R0 api.Request    `url:"/b"`
}

func (*G121) Do(ctx.C) error { return nil }

type G122 struct {
	F1 int         `api:"in" json:"g"`
	F0 time.Time   `api:"required,out" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G122) Do(ctx.C) error { return nil }

type G123 struct {
	F1 []int       `api:"in,required" json:"g"`
	R0 api.Request `url:"/b"`
	F0 time.Time   `api:"required,out" json:"f"`
}

func (*G123) Do(ctx.C) error { return nil }

type G124 struct {
	R0 api.Request    `url:"/b"`
	F1 []inner        `api:"out" json:"g"`
	F0 map[string]int `api:"required,auth,out" enc:"f"`
}

func (*G124) Do(ctx.C) error { return nil }

type G125 struct {
	R0 api.Request    `url:"/b"`
	F1 inner          `api:"required,out" json:"g"`
	F0 map[string]int `api:"out,required,auth" json:"f"`
}

func (*G125) Do(ctx.C) error { return nil }

type G126 struct {
	F1 map[string]int `api:"in" json:"g"`
	R0 api.Request    `url:"/b"`
	F0 bool           `api:"auth,required,out" enc:"f"`
}

func (*G126) Do(ctx.C) error { return nil }

type G127 struct {
	F0 time.Time   `api:"out,required,auth" json:"f"`
	R0 api.Request `url:"/b"`
	F1 []int       `api:"required,in" json:"g"`
}

func (*G127) Do(ctx.C) error { return nil }

type G128 struct {
	F0 *inner      `api:"in" json:"f"`
	F1 []int       `api:"auth" json:"g"`
	R0 api.Request `url:"/b"`
}

func (*G128) Do(ctx.C) error { return nil }

type G129 struct {
	R0 api.Request `url:"/b"`
	F1 bool        `api:"out" enc:"g"`
	F0 float64     `api:"in" enc:"f"`
}

func (*G129) Do(ctx.C) error { return nil }

type G130 struct {
	R0 api.Request `url:"/b"`
	F0 *int        `api:"in" enc:"f"`
	F1 int         `api:"auth,out" json:"g"`
}

func (*G130) Do(ctx.C) error { return nil }

type G131 struct {
	R0 api.Request `url:"/b"`
	F1 []int       `api:"required,out" json:"g"`
	F0 float64     `api:"in" enc:"f"`
}

func (*G131) Do(ctx.C) error { return nil }

type G132 struct {
	F1 any         `api:"in" json:"g"`
	F0 bool        `api:"in" enc:"f"`
	R0 api.Request `url:"/b"`
}

func (*G132) Do(ctx.C) error { return nil }

type G133 struct {
	F0 string      `api:"in" json:"f"`
	R0 api.Request `url:"/b"`
	F1 inner       `api:"in,required" json:"g"`
}

func (*G133) Do(ctx.C) error { return nil }

type G134 struct {
	F1 bool        `api:"auth" enc:"g"`
	R0 api.Request `url:"/b"`
	F0 float64     `api:"required,in" enc:"f"`
}

func (*G134) Do(ctx.C) error { return nil }

type G135 struct {
	F0 map[string]int `api:"in,required" json:"f"`
	F1 *inner         `api:"out" json:"g"`
	R0 api.Request    `url:"/b"`
}

func (*G135) Do(ctx.C) error { return nil }

type G136 struct {
	R0 api.Request `url:"/b"`
	F1 *int        `api:"out,auth" enc:"g"`
	F0 inner       `api:"in,required" json:"f"`
}

func (*G136) Do(ctx.C) error { return nil }

type G137 struct {
	F1 inner       `api:"required,out" enc:"g"`
	R0 api.Request `url:"/b"`
	F0 []inner     `api:"in,required" json:"f"`
}

func (*G137) Do(ctx.C) error { return nil }

type G138 struct {
	F0 []string    `api:"in,required" enc:"f"`
	F1 []int       `api:"in" enc:"g"`
	R0 api.Request `url:"/b"`
}

func (*G138) Do(ctx.C) error { return nil }

type G139 struct {
	F0 int         `api:"in,required" enc:"f"`
	R0 api.Request `url:"/b"`
	F1 []inner     `api:"required,in" json:"g"`
}

func (*G139) Do(ctx.C) error { return nil }

type G140 struct {
	F0 *inner      `api:"in,out" enc:"f"`
	F1 []string    `api:"auth" enc:"g"`
	R0 api.Request `url:"/b"`
}

func (*G140) Do(ctx.C) error { return nil }

type G141 struct {
	R0 api.Request `url:"/b"`
	F0 UID         `api:"out,in" enc:"f"`
	F1 []int       `api:"out" json:"g"`
}

func (*G141) Do(ctx.C) error { return nil }

type G142 struct {
	R0 api.Request `url:"/b"`
	F0 string      `api:"both" json:"f"`
	G  []string    `api:"out,auth" json:"g"`
}

func (*G142) Do(ctx.C) error { return nil }

type G143 struct {
	F1 map[string]int `api:"out,required" enc:"g"`
	F  float64        `api:"both" json:"f"`
	R0 api.Request    `url:"/b"`
}

func (*G143) Do(ctx.C) error { return nil }

type G144 struct {
	R0 api.Request `url:"/b"`
	F1 bool        `api:"in" json:"g"`
	F0 bool        `api:"out,in" enc:"f"`
}

func (*G144) Do(ctx.C) error { return nil }

type G145 struct {
	R0 api.Request `url:"/b"`
	F0 string      `api:"both" json:"f"`
	F1 float64     `api:"in,required" json:"g"`
}

func (*G145) Do(ctx.C) error { return nil }

type G146 struct {
	G  []inner     `api:"auth" json:"g"`
	F0 []string    `api:"both,required" enc:"f"`
	R0 api.Request `url:"/b"`
}

func (*G146) Do(ctx.C) error { return nil }

type G147 struct {
	F0 int         `api:"in,out,required" json:"f"`
	R0 api.Request `url:"/b"`
	F1 []int       `api:"out" enc:"g"`
}

func (*G147) Do(ctx.C) error { return nil }

type G148 struct {
	F1 *inner      `api:"auth,out" enc:"g"`
	R0 api.Request `url:"/b"`
	F0 time.Time   `api:"out,required,in" json:"f"`
}

func (*G148) Do(ctx.C) error { return nil }

type G149 struct {
	F1 *inner      `api:"required,out" enc:"g"`
	F0 *int        `api:"both,required" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G149) Do(ctx.C) error { return nil }

type G150 struct {
	F1 bool        `api:"in" json:"g"`
	F0 any         `api:"out,required,in" json:"f"`
	R0 api.Request `url:"/b"`
}

func (*G150) Do(ctx.C) error { return nil }

type G151 struct {
	R0 api.Request `url:"/b"`
	F1 time.Time   `api:"in,required" json:"g"`
	F  any         `api:"out,required,in" json:"f"`
}

func (*G151) Do(ctx.C) error { return nil }

type G152 struct {
	F0 any         `api:"" json:"f"`
	R0 api.Request `url:"/c"`
}

func (*G152) Do(ctx.C) error { return nil }

type G153 struct {
	R0 api.Request `url:"/c"`
	F0 time.Time   `api:"auth" json:"f"`
}

func (*G153) Do(ctx.C) error { return nil }

type G154 struct {
	R0 api.Request `url:"/c"`
	F0 bool        `api:"required" enc:"f"`
}

func (*G154) Do(ctx.C) error { return nil }

type G155 struct {
	R0 api.Request `url:"/c"`
	F0 any         `api:"auth,required" json:"f"`
}

func (*G155) Do(ctx.C) error { return nil }

type G156 struct {
	F0 []string    `api:"out" json:"f"`
	R0 api.Request `url:"/c"`
}

func (*G156) Do(ctx.C) error { return nil }

type G157 struct {
	R0 api.Request `url:"/c"`
	F0 time.Time   `api:"auth,out" enc:"f"`
}

func (*G157) Do(ctx.C) error { return nil }

type G158 struct {
	R0 api.Request `url:"/c"`
	F0 float64     `api:"out,required" json:"f"`
}

func (*G158) Do(ctx.C) error { return nil }

type G159 struct {
	F0 []int       `api:"required,auth,out" enc:"f"`
	R0 api.Request `url:"/c"`
}

func (*G159) Do(ctx.C) error { return nil }

type G160 struct {
	F0 float64     `api:"in" json:"f"`
	R0 api.Request `url:"/c"`
}

func (*G160) Do(ctx.C) error { return nil }

type G161 struct {
	R0 api.Request `url:"/c"`
	F  []string    `api:"in,required" json:"f"`
}

func (*G161) Do(ctx.C) error { return nil }

type G162 struct {
	R0 api.Request `url:"/c"`
	F  any         `api:"out,in" json:"f"`
}

func (*G162) Do(ctx.C) error { return nil }

type G163 struct {
	F0 []string    `api:"in,out,required" json:"f"`
	R0 api.Request `url:"/c"`
}

func (*G163) Do(ctx.C) error { return nil }

type G164 struct {
	F0 map[string]int `api:"" enc:"f"`
	F1 inner          `api:"auth" json:"g"`
	R0 api.Request    `url:"/c"`
}

func (*G164) Do(ctx.C) error { return nil }

type G165 struct {
	F0 *int        `api:"" json:"f"`
	F1 any         `api:"out" enc:"g"`
	R0 api.Request `url:"/c"`
}

func (*G165) Do(ctx.C) error { return nil }

type G166 struct {
	F  bool        `api:"" json:"f"`
	F1 inner       `api:"auth,out" enc:"g"`
	R0 api.Request `url:"/c"`
}

func (*G166) Do(ctx.C) error { return nil }

type G167 struct {
	F1 []string    `api:"required,out" json:"g"`
	F0 []string    `api:"" json:"f"`
	R0 api.Request `url:"/c"`
}

func (*G167) Do(ctx.C) error { return nil }

type G168 struct {
	F1 map[string]int `api:"in" enc:"g"`
	F  []string       `api:"" json:"f"`
	R0 api.Request    `url:"/c"`
}

func (*G168) Do(ctx.C) error { return nil }

type G169 struct {
	R0 api.Request `url:"/c"`
	F1 []int       `api:"required,in" enc:"g"`
	F0 time.Time   `api:"" json:"f"`
}

func (*G169) Do(ctx.C) error { return nil }

type G170 struct {
	F0 any         `api:"auth" json:"f"`
	R0 api.Request `url:"/c"`
	F1 string      `api:"out" json:"g"`
}

func (*G170) Do(ctx.C) error { return nil }

type G171 struct {
	R0 api.Request `url:"/c"`
	F1 bool        `api:"out,required" enc:"g"`
	F0 *int        `api:"auth" enc:"f"`
}

func (*G171) Do(ctx.C) error { return nil }

type G172 struct {
	F1 UID         `api:"in" json:"g"`
	R0 api.Request `url:"/c"`
	F0 UID         `api:"auth" json:"f"`
}

func (*G172) Do(ctx.C) error { return nil }

type G173 struct {
	R0 api.Request `url:"/c"`
	F0 string      `api:"auth" enc:"f"`
	F1 []int       `api:"required,in" enc:"g"`
}

func (*G173) Do(ctx.C) error { return nil }

type G174 struct {
	R0 api.Request `url:"/c"`
	F0 *inner      `api:"required" json:"f"`
	G  inner       `api:"auth" json:"g"`
}

func (*G174) Do(ctx.C) error { return nil }

type G175 struct {
	R0 api.Request `url:"/c"`
	G  any         `api:"out" json:"g"`
	F0 float64     `api:"required" json:"f"`
}

func (*G175) Do(ctx.C) error { return nil }

type G176 struct {
	F1 int         `api:"auth,out" json:"g"`
	R0 api.Request `url:"/c"`
	F0 *int        `api:"required" enc:"f"`
}

func (*G176) Do(ctx.C) error { return nil }

type G177 struct {
	F  bool        `api:"required" json:"f"`
	R0 api.Request `url:"/c"`
	F1 float64     `api:"out,required" enc:"g"`
}

func (*G177) Do(ctx.C) error { return nil }

type G178 struct {
	F0 *inner      `api:"required" enc:"f"`
	F1 []int       `api:"in" enc:"g"`
	R0 api.Request `url:"/c"`
}

func (*G178) Do(ctx.C) error { return nil }

type G179 struct {
	F0 []inner     `api:"required" enc:"f"`
	F1 []string    `api:"in,required" enc:"g"`
	R0 api.Request `url:"/c"`
}

func (*G179) Do(ctx.C) error { return nil }

type G180 struct {
	R0 api.Request    `url:"/c"`
	F0 []string       `api:"auth,required" enc:"f"`
	F1 map[string]int `api:"out" json:"g"`
}

func (*G180) Do(ctx.C) error { return nil }

type G181 struct {
	F0 time.Time   `api:"auth,required" enc:"f"`
	R0 api.Request `url:"/c"`
	F1 string      `api:"out,required" json:"g"`
}

func (*G181) Do(ctx.C) error { return nil }

type G182 struct {
	F1 []inner     `api:"in" json:"g"`
	F0 any         `api:"required,auth" enc:"f"`
	R0 api.Request `url:"/c"`
}

func (*G182) Do(ctx.C) error { return nil }

type G183 struct {
	F0 *int        `api:"required,auth" enc:"f"`
	F1 string      `api:"in,required" enc:"g"`
	R0 api.Request `url:"/c"`
}

func (*G183) Do(ctx.C) error { return nil }

type G184 struct {
	F0 inner       `api:"out" enc:"f"`
	F1 bool        `api:"auth" enc:"g"`
	R0 api.Request `url:"/c"`
}

func (*G184) Do(ctx.C) error { return nil }

type G185 struct {
	R0 api.Request    `url:"/c"`
	F0 []int          `api:"out" enc:"f"`
	F1 map[string]int `api:"out" enc:"g"`
}

func (*G185) Do(ctx.C) error { return nil }

type G186 struct {
	F1 string      `api:"out,auth" json:"g"`
	F0 []int       `api:"out" enc:"f"`
	R0 api.Request `url:"/c"`
}

func (*G186) Do(ctx.C) error { return nil }

type G187 struct {
	F0 *int        `api:"out" enc:"f"`
	F1 []inner     `api:"required,out" enc:"g"`
	R0 api.Request `url:"/c"`
}

func (*G187) Do(ctx.C) error { return nil }

type G188 struct {
	F1 map[string]int `api:"in" enc:"g"`
	F0 map[string]int `api:"out" enc:"f"`
	R0 api.Request    `url:"/c"`
}

func (*G188) Do(ctx.C) error { return nil }

type G189 struct {
	F0 inner       `api:"out" enc:"f"`
	G  time.Time   `api:"required,in" json:"g"`
	R0 api.Request `url:"/c"`
}

func (*G189) Do(ctx.C) error { return nil }

type G190 struct {
	R0 api.Request `url:"/c"`
	G  *inner      `api:"out" json:"g"`
	F0 time.Time   `api:"auth,out" enc:"f"`
}

func (*G190) Do(ctx.C) error { return nil }

type G191 struct {
	F0 inner       `api:"out,auth" json:"f"`
	F1 inner       `api:"out,required" enc:"g"`
	R0 api.Request `url:"/c"`
}

func (*G191) Do(ctx.C) error { return nil }

type G192 struct {
	R0 api.Request `url:"/c"`
	F0 time.Time   `api:"auth,out" enc:"f"`
	F1 bool        `api:"in" json:"g"`
}

func (*G192) Do(ctx.C) error { return nil }

type G193 struct {
	F1 bool        `api:"required,in" enc:"g"`
	F0 string      `api:"auth,out" enc:"f"`
	R0 api.Request `url:"/c"`
}

func (*G193) Do(ctx.C) error { return nil }

type G194 struct {
	F1 []int       `api:"auth" json:"g"`
	F0 any         `api:"required,out" json:"f"`
	R0 api.Request `url:"/c"`
}

func (*G194) Do(ctx.C) error { return nil }

type G195 struct {
	R0 api.Request `url:"/c"`
	F1 []int       `api:"out" enc:"g"`
	F0 time.Time   `api:"out,required" enc:"f"`
}

func (*G195) Do(ctx.C) error { return nil }

type G196 struct {
	F1 UID         `api:"auth,out" json:"g"`
	F0 bool        `api:"required,out" json:"f"`
	R0 api.Request `url:"/c"`
}

func (*G196) Do(ctx.C) error { return nil }

type G197 struct {
	F1 []inner     `api:"out,required" json:"g"`
	R0 api.Request `url:"/c"`
	F0 int         `api:"out,required" enc:"f"`
}

func (*G197) Do(ctx.C) error { return nil }

type G198 struct {
	R0 api.Request    `url:"/c"`
	F1 []string       `api:"in" enc:"g"`
	F0 map[string]int `api:"out,required" enc:"f"`
}

func (*G198) Do(ctx.C) error { return nil }

type G199 struct {
	F0 []int       `api:"required,out" enc:"f"`
	R0 api.Request `url:"/c"`
	F1 UID         `api:"in,required" json:"g"`
}

func (*G199) Do(ctx.C) error { return nil }

type G200 struct {
	F1 []int       `api:"out" enc:"g"`
	R0 api.Request `url:"/c"`
	F0 time.Time   `api:"required,auth,out" enc:"f"`
}

func (*G200) Do(ctx.C) error { return nil }

type G201 struct {
	R0 api.Request `url:"/c"`
	F1 float64     `api:"out,required" enc:"g"`
	F0 UID         `api:"required,out,auth" json:"f"`
}

func (*G201) Do(ctx.C) error { return nil }

type G202 struct {
	F1 UID         `api:"in" json:"g"`
	R0 api.Request `url:"/c"`
	F  inner       `api:"required,out,auth" json:"f"`
}

func (*G202) Do(ctx.C) error { return nil }

type G203 struct {
	R0 api.Request    `url:"/c"`
	F0 inner          `api:"auth,out,required" json:"f"`
	G  map[string]int `api:"in,required" json:"g"`
}

func (*G203) Do(ctx.C) error { return nil }

type G204 struct {
	F1 inner       `api:"auth" enc:"g"`
	F0 bool        `api:"in" enc:"f"`
	R0 api.Request `url:"/c"`
}

func (*G204) Do(ctx.C) error { return nil }

type G205 struct {
	R0 api.Request `url:"/c"`
	F1 []inner     `api:"out" json:"g"`
	F0 any         `api:"in" json:"f"`
}

func (*G205) Do(ctx.C) error { return nil }

type G206 struct {
	R0 api.Request `url:"/c"`
	F1 int         `api:"auth,out" json:"g"`
	F0 inner       `api:"in" json:"f"`
}

func (*G206) Do(ctx.C) error { return nil }

type G207 struct {
	F  []string       `api:"in" json:"f"`
	R0 api.Request    `url:"/c"`
	F1 map[string]int `api:"out,required" json:"g"`
}

func (*G207) Do(ctx.C) error { return nil }

type G208 struct {
	F0 float64     `api:"in" json:"f"`
	F1 int         `api:"in" enc:"g"`
	R0 api.Request `url:"/c"`
}

func (*G208) Do(ctx.C) error { return nil }

type G209 struct {
	F1 *int           `api:"in,required" json:"g"`
	R0 api.Request    `url:"/c"`
	F0 map[string]int `api:"in" json:"f"`
}

func (*G209) Do(ctx.C) error { return nil }

type G210 struct {
	F1 map[string]int `api:"auth" enc:"g"`
	R0 api.Request    `url:"/c"`
	F0 inner          `api:"required,in" enc:"f"`
}

func (*G210) Do(ctx.C) error { return nil }

type G211 struct {
	F0 any         `api:"required,in" json:"f"`
	R0 api.Request `url:"/c"`
	F1 *int        `api:"out" json:"g"`
}

func (*G211) Do(ctx.C) error { return nil }

type G212 struct {
	F0 []string       `api:"in,required" json:"f"`
	F1 map[string]int `api:"auth,out" json:"g"`
	R0 api.Request    `url:"/c"`
}

func (*G212) Do(ctx.C) error { return nil }

type G213 struct {
	R0 api.Request    `url:"/c"`
	F1 string         `api:"required,out" enc:"g"`
	F0 map[string]int `api:"in,required" enc:"f"`
}

func (*G213) Do(ctx.C) error { return nil }

type G214 struct {
	F1 []int       `api:"in" json:"g"`
	F0 []inner     `api:"required,in" enc:"f"`
	R0 api.Request `url:"/c"`
}

func (*G214) Do(ctx.C) error { return nil }

type G215 struct {
	R0 api.Request `url:"/c"`
	F1 []int       `api:"in,required" enc:"g"`
	F0 inner       `api:"in,required" enc:"f"`
}

func (*G215) Do(ctx.C) error { return nil }

type G216 struct {
	F0 []string    `api:"both" enc:"f"`
	F1 int         `api:"auth" json:"g"`
	R0 api.Request `url:"/c"`
}

func (*G216) Do(ctx.C) error { return nil }

type G217 struct {
	R0 api.Request `url:"/c"`
	F1 float64     `api:"out" json:"g"`
	F0 []int       `api:"both" enc:"f"`
}

func (*G217) Do(ctx.C) error { return nil }

type G218 struct {
	F  float64     `api:"in,out" json:"f"`
	F1 inner       `api:"auth,out" json:"g"`
	R0 api.Request `url:"/c"`
}

func (*G218) Do(ctx.C) error { return nil }

type G219 struct {
	R0 api.Request    `url:"/c"`
	F1 int            `api:"required,out" enc:"g"`
	F0 map[string]int `api:"both" json:"f"`
}

func (*G219) Do(ctx.C) error { return nil }

type G220 struct {
	F1 []int       `api:"in" enc:"g"`
	R0 api.Request `url:"/c"`
	F0 any         `api:"both" json:"f"`
}

func (*G220) Do(ctx.C) error { return nil }

type G221 struct {
	R0 api.Request    `url:"/c"`
	F1 map[string]int `api:"in,required" json:"g"`
	F0 any            `api:"in,out" json:"f"`
}

func (*G221) Do(ctx.C) error { return nil }

type G222 struct {
	R0 api.Request `url:"/c"`
	F1 time.Time   `api:"auth" enc:"g"`
	F0 *inner      `api:"in,out,required" json:"f"`
}

func (*G222) Do(ctx.C) error { return nil }

type G223 struct {
	F0 *inner      `api:"out,in,required" enc:"f"`
	R0 api.Request `url:"/c"`
	F1 bool        `api:"out" enc:"g"`
}

func (*G223) Do(ctx.C) error { return nil }

type G224 struct {
	R0 api.Request `url:"/c"`
	F0 time.Time   `api:"both,required" enc:"f"`
	F1 string      `api:"out,auth" enc:"g"`
}

func (*G224) Do(ctx.C) error { return nil }

type G225 struct {
	F0 string      `api:"out,required,in" json:"f"`
	F1 []inner     `api:"required,out" json:"g"`
	R0 api.Request `url:"/c"`
}

func (*G225) Do(ctx.C) error { return nil }

type G226 struct {
	R0 api.Request `url:"/c"`
	F1 []string    `api:"in" enc:"g"`
	F  *inner      `api:"in,out,required" json:"f"`
}

func (*G226) Do(ctx.C) error { return nil }

type G227 struct {
	G  *inner      `api:"in,required" json:"g"`
	R0 api.Request `url:"/c"`
	F0 bool        `api:"both,required" json:"f"`
}

func (*G227) Do(ctx.C) error { return nil }

type G228 struct {
	R1 api.Request `url:"/g0/y"`
	R0 api.Request `url:"/g0/x?v=1"`
}

func (*G228) Do(ctx.C) error { return nil }

type G229 struct {
	N1 float64        `api:"auth,out" json:"n1"`
	F0 any            `api:"required" enc:"n0"`
	R0 api.Request    `url:"/g1/x"`
	F4 []inner        `api:"required" enc:"n4"`
	R1 api.Request    `url:"/g1/y"`
	F5 int            `api:"out" enc:"n5"`
	F3 map[string]int `api:"" json:"n3"`
	F2 map[string]int `api:"" enc:"n2"`
}

func (*G229) Do(ctx.C) error { return nil }

type G230 struct {
	R1 api.Request `url:"/g2/y"`
	F0 time.Time   `api:"in,required,out" enc:"n0"`
	R0 api.Request `url:"/g2/x"`
}

func (*G230) Do(ctx.C) error { return nil }

type G231 struct {
	R0 api.Request `url:"https://example.com/g3/x"`
}

func (*G231) Do(ctx.C) error { return nil }

type G232 struct {
	R0 api.Request `url:"/g4/x"`
	F1 int         `api:"required" json:"n1"`
	F0 bool        `api:"required,out" enc:"n0"`
}

func (*G232) Do(ctx.C) error { return nil }

type G233 struct {
	F0 time.Time   `api:"auth,required,out" enc:"n0"`
	R0 api.Request `url:"/g5/x"`
}

func (*G233) Do(ctx.C) error { return nil }

type G234 struct {
	R0 api.Request `url:"/g6/x"`
	F2 bool        `api:"required,in" json:"n0"`
	F0 bool        `api:"out,required" enc:"n0"`
	F1 inner       `api:"out,in,required" enc:"n1"`
}

func (*G234) Do(ctx.C) error { return nil }

type G235 struct {
	N0 int         `api:"out,auth" json:"n0"`
	F1 int         `api:"in,required" json:"n1"`
	R0 api.Request `url:"/g7/x"`
}

func (*G235) Do(ctx.C) error { return nil }

type G236 struct {
	F0 map[string]int `api:"auth" json:"n0"`
	R1 api.Request    `url:"/g8/y"`
	F1 *int           `api:"required" enc:"n1"`
	F2 map[string]int `api:"in" json:"n2"`
	R0 api.Request    `url:"/g8/x"`
}

func (*G236) Do(ctx.C) error { return nil }

type G237 struct {
	R1 api.Request `url:"https://example.com/g9/y"`
	F3 []inner     `api:"out,auth" json:"n3"`
	F1 bool        `api:"both" json:"n1"`
	F4 *inner      `api:"required" json:"n4"`
	F2 time.Time   `api:"in" enc:"n0"`
	F0 any         `api:"out,required" enc:"n0"`
	R0 api.Request `url:"/g9/x"`
}

func (*G237) Do(ctx.C) error { return nil }

type G238 struct {
	F0 int         `api:"in,out" enc:"n0"`
	R0 api.Request `url:"/g10/x"`
	R2 api.Request `url:"https://example.com/g10/z"`
	R1 api.Request `url:"/g10/y"`
}

func (*G238) Do(ctx.C) error { return nil }

type G239 struct {
	F2 float64     `api:"in" json:"n2"`
	F0 []inner     `api:"required" enc:"n0"`
	F1 any         `api:"auth" json:"n1"`
	R0 api.Request `url:"/g11/x?v=1"`
}

func (*G239) Do(ctx.C) error { return nil }

type G240 struct {
	R1 api.Request `url:"/g12/y"`
	F0 *inner      `api:"out" json:"n0"`
	R0 api.Request `url:"/g12/x"`
	R2 api.Request `url:"/g12/z"`
}

func (*G240) Do(ctx.C) error { return nil }

type G241 struct {
	R0 api.Request `url:"https://example.com/g13/x"`
	F0 int         `api:"in" json:"n0"`
	F1 inner       `api:"both" json:"n1"`
}

func (*G241) Do(ctx.C) error { return nil }

type G242 struct {
	F0 int         `api:"auth,out" enc:"n0"`
	R0 api.Request `url:"https://example.com/g14/x"`
	R1 api.Request `url:"/g14/y"`
}

func (*G242) Do(ctx.C) error { return nil }

type G243 struct {
	R0 api.Request `url:"/g15/x"`
	F0 inner       `api:"in" enc:"n0"`
	R2 api.Request `url:"https://example.com/g15/z"`
	R1 api.Request `url:"/g15/y?v=1"`
}

func (*G243) Do(ctx.C) error { return nil }

type G244 struct {
	N3 time.Time      `api:"both,required" json:"n3"`
	F0 map[string]int `api:"" enc:"n0"`
	R0 api.Request    `url:"/g16/x?v=1"`
	F4 bool           `api:"out" enc:"n4"`
	F1 time.Time      `api:"out,required" json:"n1"`
	F2 string         `api:"auth" json:"n2"`
}

func (*G244) Do(ctx.C) error { return nil }

type G245 struct {
	F2 []inner        `api:"required" json:"n2"`
	F3 map[string]int `api:"out" enc:"n3"`
	N1 inner          `api:"auth" json:"n1"`
	F0 int            `api:"out,in" json:"n0"`
	R0 api.Request    `url:"/g17/x"`
}

func (*G245) Do(ctx.C) error { return nil }

type G246 struct {
	N4 *int           `api:"" json:"n4"`
	F5 any            `api:"out,in" enc:"n5"`
	R0 api.Request    `url:"/g18/x"`
	F3 float64        `api:"auth" json:"n3"`
	F2 UID            `api:"both" json:"n2"`
	F1 map[string]int `api:"out,required" json:"n1"`
	F0 *int           `api:"in,required,out" enc:"n0"`
}

func (*G246) Do(ctx.C) error { return nil }

type G247 struct {
	F0 UID         `api:"required,auth" json:"n0"`
	R0 api.Request `url:"/g19/x"`
	R1 api.Request `url:"/g19/y"`
	F2 inner       `api:"out,required" enc:"n2"`
	N1 *int        `api:"in,out,required" json:"n1"`
}

func (*G247) Do(ctx.C) error { return nil }

type G248 struct {
	R0 api.Request `url:"/g20/x"`
	F0 inner       `api:"required,in,out" enc:"n0"`
	F1 int         `api:"auth,out" enc:"n1"`
	F2 *int        `api:"required,both" enc:"n2"`
}

func (*G248) Do(ctx.C) error { return nil }

type G249 struct {
	F1 float64     `api:"required" enc:"n1"`
	F0 int         `api:"auth,required,out" enc:"n0"`
	R0 api.Request `url:"https://example.com/g21/x"`
	R2 api.Request `url:"/g21/z"`
	F2 int         `api:"required,in" json:"n2"`
	R1 api.Request `url:"/g21/y"`
}

func (*G249) Do(ctx.C) error { return nil }

type G250 struct {
	F2 map[string]int `api:"required,both" json:"n2"`
	R0 api.Request    `url:"/g22/x"`
	F5 time.Time      `api:"out" json:"n5"`
	F1 map[string]int `api:"required" enc:"n1"`
	F3 int            `api:"out" enc:"n3"`
	N0 time.Time      `api:"required,auth" json:"n0"`
	F4 any            `api:"required,both" json:"n4"`
}

func (*G250) Do(ctx.C) error { return nil }

type G251 struct {
	F0 UID            `api:"out,auth" enc:"n0"`
	F2 map[string]int `api:"out,in" json:"n2"`
	R0 api.Request    `url:"/g23/x?v=1"`
	F1 bool           `api:"in" json:"n0"`
}

func (*G251) Do(ctx.C) error { return nil }

type G252 struct {
	F1 []string    `api:"out" json:"n1"`
	N2 []inner     `api:"out" json:"n2"`
	F3 string      `api:"required" enc:"n3"`
	R0 api.Request `url:"/g24/x"`
	F0 bool        `api:"auth" enc:"n0"`
}

func (*G252) Do(ctx.C) error { return nil }

type G253 struct {
	F0 int         `api:"auth,required" enc:"n0"`
	R2 api.Request `url:"/g25/z"`
	F2 *inner      `api:"" enc:"n2"`
	R1 api.Request `url:"https://example.com/g25/y"`
	F1 *int        `api:"both,required" enc:"n1"`
	R0 api.Request `url:"/g25/x"`
}

func (*G253) Do(ctx.C) error { return nil }

type G254 struct {
	R0 api.Request `url:"/g26/x?v=1"`
}

func (*G254) Do(ctx.C) error { return nil }

type G255 struct {
	R1 api.Request `url:"/g27/y?v=1"`
	R0 api.Request `url:"/g27/x"`
}

func (*G255) Do(ctx.C) error { return nil }

type G256 struct {
	R0 api.Request `url:"/g28/x"`
}

func (*G256) Do(ctx.C) error { return nil }

type G257 struct {
	F0 inner          `api:"required,auth" enc:"n0"`
	R0 api.Request    `url:"/g29/x"`
	F2 map[string]int `api:"out" enc:"n2"`
	F5 []string       `api:"required" json:"n5"`
	F1 inner          `api:"required" enc:"n1"`
	F3 map[string]int `api:"required" json:"n3"`
	F4 string         `api:"out,required" enc:"n4"`
}

func (*G257) Do(ctx.C) error { return nil }

type G258 struct {
	F0 bool        `api:"out" enc:"n0"`
	R0 api.Request `url:"/g30/x"`
}

func (*G258) Do(ctx.C) error { return nil }

type G259 struct {
	F4 bool        `api:"in" json:"n4"`
	N1 *inner      `api:"auth,required" json:"n1"`
	R1 api.Request `url:"/g31/y"`
	R0 api.Request `url:"/g31/x"`
	F3 any         `api:"in,out" enc:"n3"`
	F2 int         `api:"" enc:"n2"`
	F0 any         `api:"" json:"n0"`
}

func (*G259) Do(ctx.C) error { return nil }

type G260 struct {
	R1 api.Request `url:"https://example.com/g32/y"`
	R0 api.Request `url:"/g32/x"`
}

func (*G260) Do(ctx.C) error { return nil }

type G261 struct {
	F0 bool        `api:"auth" enc:"n0"`
	R0 api.Request `url:"/g33/x?v=1"`
}

func (*G261) Do(ctx.C) error { return nil }

type G262 struct {
	R0 api.Request    `url:"/g34/x"`
	F0 map[string]int `api:"both,required" json:"n0"`
}

func (*G262) Do(ctx.C) error { return nil }

type G263 struct {
	R0 api.Request `url:"/g35/x?v=1"`
	F0 int         `api:"required,both" json:"n0"`
	F1 float64     `api:"out" enc:"n1"`
}

func (*G263) Do(ctx.C) error { return nil }

type G264 struct {
	F5 *inner      `api:"out,in" json:"n5"`
	N3 int         `api:"" json:"n3"`
	F2 bool        `api:"in,out" enc:"n2"`
	F4 any         `api:"out" json:"n4"`
	R0 api.Request `url:"/g36/x"`
	F0 []string    `api:"in" enc:"n0"`
	F1 int         `api:"auth" json:"n1"`
}

func (*G264) Do(ctx.C) error { return nil }

type G265 struct {
	R0 api.Request `url:"/g37/x"`
}

func (*G265) Do(ctx.C) error { return nil }

type G266 struct {
	F2 string         `api:"out,required" enc:"n2"`
	F5 string         `api:"out" json:"n5"`
	R0 api.Request    `url:"/g38/x"`
	F4 float64        `api:"" enc:"n4"`
	F0 time.Time      `api:"out,auth,required" enc:"n0"`
	F1 int            `api:"in,out" json:"n1"`
	F3 map[string]int `api:"required" enc:"n3"`
}

func (*G266) Do(ctx.C) error { return nil }

type G267 struct {
	F0 map[string]int `api:"in,required,out" json:"n0"`
	R0 api.Request    `url:"/g39/x"`
}

func (*G267) Do(ctx.C) error { return nil }

type G268 struct {
	F4 UID            `api:"required,out" json:"n4"`
	F0 inner          `api:"auth,out,required" json:"n0"`
	F2 []inner        `api:"in,required" json:"n1"`
	R1 api.Request    `url:"/g40/y"`
	F3 map[string]int `api:"" json:"n3"`
	F1 *int           `api:"out" json:"n1"`
	R0 api.Request    `url:"/g40/x"`
}

func (*G268) Do(ctx.C) error { return nil }

type G269 struct {
	F3 []int          `api:"required" enc:"n3"`
	R0 api.Request    `url:"/g41/x?v=1"`
	N2 UID            `api:"auth,required" json:"n2"`
	F4 any            `api:"required,out" enc:"n1"`
	F0 *inner         `api:"both" enc:"n0"`
	F5 float64        `api:"in,out" json:"n5"`
	F1 map[string]int `api:"in" enc:"n1"`
}

func (*G269) Do(ctx.C) error { return nil }

type G270 struct {
	F4 time.Time   `api:"" enc:"n4"`
	F3 any         `api:"out,required" json:"n3"`
	F2 any         `api:"required,out" json:"n2"`
	F1 inner       `api:"" json:"n1"`
	R0 api.Request `url:"/g42/x?v=1"`
	F0 UID         `api:"out,required,in" enc:"n0"`
}

func (*G270) Do(ctx.C) error { return nil }

type G271 struct {
	R2 api.Request `url:"/g43/z"`
	F0 string      `api:"out,auth" enc:"n0"`
	R1 api.Request `url:"/g43/y?v=1"`
	R0 api.Request `url:"/g43/x?v=1"`
	N1 []string    `api:"" json:"n1"`
}

func (*G271) Do(ctx.C) error { return nil }

type G272 struct {
	F0 time.Time   `api:"required,auth" json:"n0"`
	R0 api.Request `url:"/g44/x"`
	F1 bool        `api:"out" enc:"n1"`
	R1 api.Request `url:"/g44/y"`
}

func (*G272) Do(ctx.C) error { return nil }

type G273 struct {
	R0 api.Request `url:"/g45/x"`
	R1 api.Request `url:"/g45/y"`
}

func (*G273) Do(ctx.C) error { return nil }

type G274 struct {
	F1 *inner      `api:"" enc:"n1"`
	F3 any         `api:"required" json:"n3"`
	F0 inner       `api:"in" json:"n0"`
	R0 api.Request `url:"/g46/x"`
	F2 bool        `api:"auth" enc:"n2"`
}

func (*G274) Do(ctx.C) error { return nil }

type G275 struct {
	R0 api.Request `url:"/g47/x"`
	F2 string      `api:"" json:"n2"`
	F1 *inner      `api:"" enc:"n1"`
	F0 []string    `api:"required,auth" enc:"n0"`
}

func (*G275) Do(ctx.C) error { return nil }

type G276 struct {
	R0 api.Request `url:"https://example.com/g48/x"`
}

func (*G276) Do(ctx.C) error { return nil }

type G277 struct {
	R0 api.Request `url:"/g49/x"`
	R2 api.Request `url:"/g49/z"`
	R1 api.Request `url:"/g49/y"`
}

func (*G277) Do(ctx.C) error { return nil }

type G278 struct {
	R0 api.Request `url:"/g50/x?v=1"`
	F1 []inner     `api:"required" json:"n1"`
	F3 []inner     `api:"in,required" json:"n3"`
	F0 bool        `api:"auth" enc:"n0"`
	F2 *int        `api:"required,out,in" enc:"n2"`
}

func (*G278) Do(ctx.C) error { return nil }

type G279 struct {
	R0 api.Request `url:"/g51/x"`
	F0 inner       `api:"auth,out,required" json:"n0"`
}

func (*G279) Do(ctx.C) error { return nil }

type G280 struct {
	F4 []string    `api:"required" enc:"n4"`
	F0 UID         `api:"out,required,auth" enc:"n0"`
	F3 UID         `api:"out,required" enc:"n1"`
	F2 *inner      `api:"in,out" json:"n2"`
	R0 api.Request `url:"/g52/x?v=1"`
	F1 *int        `api:"in" json:"n1"`
}

func (*G280) Do(ctx.C) error { return nil }

type G281 struct {
	R0 api.Request `url:"/g53/x"`
	R1 api.Request `url:"/g53/y?v=1"`
	F1 string      `api:"out,required" enc:"n1"`
	N0 []int       `api:"required,auth" json:"n0"`
}

func (*G281) Do(ctx.C) error { return nil }

type G282 struct {
	R0 api.Request    `url:"/g54/x"`
	F0 string         `api:"required" enc:"n0"`
	F1 any            `api:"required" enc:"n1"`
	F3 *inner         `api:"required,both" enc:"n3"`
	F2 map[string]int `api:"in,required" enc:"n2"`
}

func (*G282) Do(ctx.C) error { return nil }

type G283 struct {
	F0 []string    `api:"" enc:"n0"`
	R2 api.Request `url:"https://example.com/g55/z"`
	R0 api.Request `url:"/g55/x"`
	F2 int         `api:"" enc:"n2"`
	R1 api.Request `url:"/g55/y"`
	F1 inner       `api:"out,auth" json:"n1"`
	F3 []string    `api:"" enc:"n3"`
}

func (*G283) Do(ctx.C) error { return nil }

type G284 struct {
	R0 api.Request `url:"/g56/x"`
}

func (*G284) Do(ctx.C) error { return nil }

type G285 struct {
	R0 api.Request `url:"/g57/x"`
}

func (*G285) Do(ctx.C) error { return nil }

type G286 struct {
	R0 api.Request `url:"https://example.com/g58/x"`
	F0 []int       `api:"" enc:"n0"`
	F2 []inner     `api:"both" enc:"n2"`
	F1 string      `api:"required,in" enc:"n1"`
}

func (*G286) Do(ctx.C) error { return nil }

type G287 struct {
	F0 bool        `api:"in" enc:"n0"`
	R2 api.Request `url:"https://example.com/g59/z"`
	R0 api.Request `url:"/g59/x"`
	R1 api.Request `url:"/g59/y"`
}

func (*G287) Do(ctx.C) error { return nil }

type G288 struct {
	R0 api.Request    `url:"https://example.com/g60/x"`
	F2 any            `api:"required" json:"n2"`
	N0 time.Time      `api:"out,auth" json:"n0"`
	F1 map[string]int `api:"out,in,required" json:"n1"`
}

func (*G288) Do(ctx.C) error { return nil }

type G289 struct {
	R0 api.Request `url:"/g61/x"`
}

func (*G289) Do(ctx.C) error { return nil }

type G290 struct {
	N4 map[string]int `api:"both" json:"n4"`
	F2 UID            `api:"" json:"n2"`
	R0 api.Request    `url:"/g62/x"`
	F1 []string       `api:"in" enc:"n1"`
	F0 float64        `api:"required,in" enc:"n0"`
	F3 []int          `api:"required" enc:"n3"`
}

func (*G290) Do(ctx.C) error { return nil }

type G291 struct {
	R0 api.Request `url:"/g63/x"`
	R2 api.Request `url:"/g63/z?v=1"`
	F0 *int        `api:"auth" enc:"n0"`
	R1 api.Request `url:"/g63/y"`
}

func (*G291) Do(ctx.C) error { return nil }

type G292 struct {
	R0 api.Request `url:"/g64/x?v=1"`
	R1 api.Request `url:"https://example.com/g64/y"`
	F1 *int        `api:"auth,out,required" json:"n1"`
	N0 []string    `api:"in" json:"n0"`
	R2 api.Request `url:"/g64/z"`
}

func (*G292) Do(ctx.C) error { return nil }

type G293 struct {
	F4 bool        `api:"" json:"n4"`
	F1 *inner      `api:"out,required" json:"n1"`
	F3 int         `api:"required" enc:"n3"`
	F2 bool        `api:"in" json:"n2"`
	R1 api.Request `url:"/g65/y"`
	F0 int         `api:"required,auth,out" enc:"n0"`
	R0 api.Request `url:"/g65/x?v=1"`
	R2 api.Request `url:"/g65/z"`
}

func (*G293) Do(ctx.C) error { return nil }

type G294 struct {
	R0 api.Request `url:"/g66/x"`
	N3 UID         `api:"required,both" json:"n3"`
	F1 time.Time   `api:"auth,out" json:"n1"`
	F2 string      `api:"required,in" enc:"n1"`
	F0 any         `api:"in" enc:"n0"`
	F4 time.Time   `api:"required" json:"n4"`
}

func (*G294) Do(ctx.C) error { return nil }

type G295 struct {
	F5 []inner     `api:"" enc:"n5"`
	R1 api.Request `url:"/g67/y?v=1"`
	R2 api.Request `url:"/g67/z"`
	F1 float64     `api:"required,both" json:"n1"`
	F0 []inner     `api:"out" json:"n0"`
	F3 time.Time   `api:"" json:"n3"`
	R0 api.Request `url:"/g67/x"`
	F4 UID         `api:"" json:"n4"`
	N2 UID         `api:"auth,out" json:"n2"`
}

func (*G295) Do(ctx.C) error { return nil }

type G296 struct {
	R0 api.Request `url:"/g68/x"`
	R1 api.Request `url:"/g68/y"`
	R2 api.Request `url:"/g68/z"`
}

func (*G296) Do(ctx.C) error { return nil }

type G297 struct {
	F3 bool        `api:"required" json:"n3"`
	R0 api.Request `url:"/g69/x"`
	F2 time.Time   `api:"both" json:"n2"`
	R2 api.Request `url:"/g69/z"`
	R1 api.Request `url:"/g69/y"`
	F0 inner       `api:"out,auth" json:"n0"`
	N1 time.Time   `api:"required" json:"n1"`
}

func (*G297) Do(ctx.C) error { return nil }

type G298 struct {
	R1 api.Request `url:"/g70/y"`
	F0 float64     `api:"auth" json:"n0"`
	R2 api.Request `url:"https://example.com/g70/z"`
	R0 api.Request `url:"/g70/x"`
	F1 float64     `api:"out" json:"n1"`
}

func (*G298) Do(ctx.C) error { return nil }

type G299 struct {
	F0 float64     `api:"out" enc:"n0"`
	R0 api.Request `url:"/g71/x"`
}

func (*G299) Do(ctx.C) error { return nil }

type G300 struct {
	R0 api.Request `url:"/g72/x?v=1"`
}

func (*G300) Do(ctx.C) error { return nil }

type G301 struct {
	F2 int         `api:"in" enc:"n2"`
	F1 []int       `api:"in,required" enc:"n1"`
	R0 api.Request `url:"/g73/x"`
	R1 api.Request `url:"/g73/y"`
	F0 inner       `api:"required" json:"n0"`
}

func (*G301) Do(ctx.C) error { return nil }

type G302 struct {
	F2 string         `api:"in,out" enc:"n2"`
	F1 int            `api:"both,required" json:"n1"`
	F5 any            `api:"required,auth" json:"n5"`
	F4 []string       `api:"out" enc:"n4"`
	F0 map[string]int `api:"in,required,out" json:"n0"`
	R0 api.Request    `url:"/g74/x"`
	F3 []string       `api:"out" json:"n3"`
}

func (*G302) Do(ctx.C) error { return nil }

type G303 struct {
	R1 api.Request `url:"/g75/y"`
	R0 api.Request `url:"/g75/x"`
	F0 time.Time   `api:"out,auth" json:"n0"`
}

func (*G303) Do(ctx.C) error { return nil }

type G304 struct {
	F1 *inner         `api:"required,out" json:"n1"`
	F0 bool           `api:"out" enc:"n0"`
	R0 api.Request    `url:"/g76/x"`
	F2 map[string]int `api:"in,required" enc:"n1"`
	F3 string         `api:"both,required" enc:"n3"`
}

func (*G304) Do(ctx.C) error { return nil }

type G305 struct {
	F1 *inner      `api:"out,required,auth" json:"n1"`
	F2 time.Time   `api:"out,in" json:"n2"`
	F0 any         `api:"required,both" json:"n0"`
	F3 any         `api:"required" enc:"n3"`
	F4 bool        `api:"in,out" enc:"n4"`
	R0 api.Request `url:"/g77/x"`
}

func (*G305) Do(ctx.C) error { return nil }

type G306 struct {
	R0 api.Request `url:"/g78/x"`
}

func (*G306) Do(ctx.C) error { return nil }

type G307 struct {
	F0 float64        `api:"auth" enc:"n0"`
	R1 api.Request    `url:"/g79/y"`
	F2 int            `api:"required" enc:"n2"`
	F5 inner          `api:"out" json:"n5"`
	F3 []int          `api:"in,required" enc:"n3"`
	F1 map[string]int `api:"in" enc:"n1"`
	F4 int            `api:"out" enc:"n1"`
	R2 api.Request    `url:"/g79/z"`
	R0 api.Request    `url:"/g79/x"`
}

func (*G307) Do(ctx.C) error { return nil }

type G308 struct {
	R0 api.Request `url:"/g80/x"`
	R1 api.Request `url:"/g80/y"`
}

func (*G308) Do(ctx.C) error { return nil }

type G309 struct {
	F1 UID         `api:"required,out" json:"n1"`
	F2 []inner     `api:"auth,out,required" enc:"n2"`
	R0 api.Request `url:"/g81/x"`
	N0 *int        `api:"both" json:"n0"`
}

func (*G309) Do(ctx.C) error { return nil }

type G310 struct {
	F3 string      `api:"" json:"n3"`
	F4 *int        `api:"required" json:"n4"`
	F2 []int       `api:"required" json:"n2"`
	F0 []string    `api:"out" json:"n0"`
	F1 inner       `api:"auth,out" json:"n1"`
	R0 api.Request `url:"/g82/x"`
}

func (*G310) Do(ctx.C) error { return nil }

type G311 struct {
	R1 api.Request `url:"/g83/y"`
	R2 api.Request `url:"/g83/z"`
	R0 api.Request `url:"/g83/x"`
}

func (*G311) Do(ctx.C) error { return nil }

type G312 struct {
	F0 *int        `api:"required" json:"n0"`
	F2 inner       `api:"out" json:"n2"`
	R0 api.Request `url:"/g84/x"`
	F1 []string    `api:"out,required,auth" json:"n1"`
	F3 any         `api:"required" json:"n3"`
}

func (*G312) Do(ctx.C) error { return nil }

type G313 struct {
	F1 time.Time      `api:"required" json:"n1"`
	F0 map[string]int `api:"in" json:"n0"`
	R0 api.Request    `url:"/g85/x?v=1"`
	F2 []string       `api:"both,required" json:"n2"`
	F3 map[string]int `api:"auth,required" enc:"n3"`
	R1 api.Request    `url:"/g85/y"`
}

func (*G313) Do(ctx.C) error { return nil }

type G314 struct {
	F0 time.Time   `api:"in" enc:"n0"`
	F4 int         `api:"out,auth" json:"n2"`
	F1 time.Time   `api:"in" json:"n1"`
	R0 api.Request `url:"/g86/x"`
	F2 any         `api:"required,in" enc:"n2"`
	F3 inner       `api:"required,out" enc:"n0"`
}

func (*G314) Do(ctx.C) error { return nil }

type G315 struct {
	F0 UID            `api:"in" enc:"n0"`
	R1 api.Request    `url:"/g87/y?v=1"`
	F1 *inner         `api:"auth" json:"n1"`
	R0 api.Request    `url:"/g87/x?v=1"`
	N4 map[string]int `api:"" json:"n4"`
	F2 any            `api:"out" enc:"n2"`
	F3 int            `api:"required" json:"n3"`
}

func (*G315) Do(ctx.C) error { return nil }

type G316 struct {
	F1 map[string]int `api:"auth,out" json:"n0"`
	F0 *int           `api:"required,in" json:"n0"`
	F2 *int           `api:"required,out" json:"n2"`
	R0 api.Request    `url:"/g88/x"`
}

func (*G316) Do(ctx.C) error { return nil }

type G317 struct {
	N2 []string    `api:"out" json:"n2"`
	F1 time.Time   `api:"out,auth" json:"n1"`
	F3 any         `api:"" json:"n3"`
	R0 api.Request `url:"/g89/x"`
	F0 []string    `api:"required" enc:"n0"`
	R1 api.Request `url:"/g89/y"`
}

func (*G317) Do(ctx.C) error { return nil }

type G318 struct {
	R2 api.Request `url:"/g90/z"`
	N1 []string    `api:"in,required" json:"n1"`
	R1 api.Request `url:"/g90/y?v=1"`
	R0 api.Request `url:"/g90/x"`
	F2 any         `api:"out,in" json:"n2"`
	N0 time.Time   `api:"required" json:"n0"`
}

func (*G318) Do(ctx.C) error { return nil }

type G319 struct {
	R0 api.Request `url:"/g91/x"`
	F2 *inner      `api:"required,in" enc:"n2"`
	F0 int         `api:"auth,out,required" enc:"n0"`
	F1 float64     `api:"in" json:"n1"`
	F3 string      `api:"required,out" json:"n2"`
	N4 inner       `api:"both" json:"n4"`
}

func (*G319) Do(ctx.C) error { return nil }

type G320 struct {
	R0 api.Request `url:"/g92/x?v=1"`
	R1 api.Request `url:"/g92/y"`
}

func (*G320) Do(ctx.C) error { return nil }

type G321 struct {
	N1 string         `api:"required" json:"n1"`
	R0 api.Request    `url:"/g93/x"`
	F0 float64        `api:"both,required" enc:"n0"`
	F2 inner          `api:"in" json:"n2"`
	F3 map[string]int `api:"required,in" enc:"n3"`
}

func (*G321) Do(ctx.C) error { return nil }

type G322 struct {
	F0 map[string]int `api:"auth" json:"n0"`
	R0 api.Request    `url:"/g94/x"`
}

func (*G322) Do(ctx.C) error { return nil }

type G323 struct {
	F0 inner       `api:"required,auth" json:"n0"`
	R0 api.Request `url:"/g95/x"`
}

func (*G323) Do(ctx.C) error { return nil }

type G324 struct {
	F1 *int           `api:"" json:"n1"`
	F2 any            `api:"" enc:"n2"`
	R0 api.Request    `url:"https://example.com/g96/x"`
	F0 map[string]int `api:"required,out,auth" enc:"n0"`
}

func (*G324) Do(ctx.C) error { return nil }

type G325 struct {
	R0 api.Request `url:"/g97/x?v=1"`
	F0 int         `api:"out,auth,required" json:"n0"`
	F1 UID         `api:"required,in" enc:"n0"`
}

func (*G325) Do(ctx.C) error { return nil }

type G326 struct {
	R1 api.Request `url:"https://example.com/g98/y"`
	R0 api.Request `url:"/g98/x"`
}

func (*G326) Do(ctx.C) error { return nil }

type G327 struct {
	R1 api.Request `url:"/g99/y?v=1"`
	F0 any         `api:"auth" enc:"n0"`
	N2 []string    `api:"required,out" json:"n2"`
	F1 []string    `api:"" enc:"n1"`
	R2 api.Request `url:"/g99/z"`
	R0 api.Request `url:"/g99/x"`
}

func (*G327) Do(ctx.C) error { return nil }

type G328 struct {
	R1 api.Request `url:"https://example.com/g100/y"`
	R0 api.Request `url:"/g100/x"`
	F0 any         `api:"" json:"n0"`
}

func (*G328) Do(ctx.C) error { return nil }

type G329 struct {
	R0 api.Request `url:"/g101/x"`
	R1 api.Request `url:"/g101/y?v=1"`
}

func (*G329) Do(ctx.C) error { return nil }

type G330 struct {
	R0 api.Request `url:"/g102/x"`
}

func (*G330) Do(ctx.C) error { return nil }

type G331 struct {
	R0 api.Request `url:"/g103/x"`
	F0 inner       `api:"in" enc:"n0"`
	F1 any         `api:"out,in,required" json:"n1"`
}

func (*G331) Do(ctx.C) error { return nil }

type G332 struct {
	R2 api.Request `url:"/g104/z"`
	R1 api.Request `url:"/g104/y"`
	R0 api.Request `url:"/g104/x"`
	F0 string      `api:"out,required" enc:"n0"`
}

func (*G332) Do(ctx.C) error { return nil }

type G333 struct {
	F0 inner       `api:"required,both" enc:"n0"`
	R0 api.Request `url:"https://example.com/g105/x"`
}

func (*G333) Do(ctx.C) error { return nil }

type G334 struct {
	F0 bool        `api:"required,out,auth" enc:"n0"`
	R1 api.Request `url:"/g106/y"`
	R0 api.Request `url:"https://example.com/g106/x"`
	F1 float64     `api:"out" json:"n1"`
	F2 time.Time   `api:"" enc:"n2"`
}

func (*G334) Do(ctx.C) error { return nil }

type G335 struct {
	R0 api.Request `url:"/g107/x"`
	R1 api.Request `url:"/g107/y"`
	R2 api.Request `url:"/g107/z"`
}

func (*G335) Do(ctx.C) error { return nil }

type G336 struct {
	F1 []string       `api:"both" json:"n1"`
	F0 map[string]int `api:"required,both" json:"n0"`
	R0 api.Request    `url:"/g108/x?v=1"`
	F2 UID            `api:"out" json:"n2"`
	F3 float64        `api:"" enc:"n3"`
}

func (*G336) Do(ctx.C) error { return nil }

type G337 struct {
	F0 any            `api:"in" enc:"n0"`
	F5 bool           `api:"out" json:"n0"`
	F3 UID            `api:"required,in,out" json:"n3"`
	R0 api.Request    `url:"/g109/x?v=1"`
	F1 *inner         `api:"out" enc:"n1"`
	F2 map[string]int `api:"out,in,required" json:"n2"`
	F4 float64        `api:"required" enc:"n4"`
}

func (*G337) Do(ctx.C) error { return nil }

type G338 struct {
	F5 []inner     `api:"in,out" json:"n5"`
	F0 []int       `api:"required,out" enc:"n0"`
	R2 api.Request `url:"https://example.com/g110/z"`
	R1 api.Request `url:"/g110/y?v=1"`
	F2 *int        `api:"out,required" json:"n2"`
	F3 float64     `api:"auth,required" json:"n3"`
	F1 any         `api:"required,out,in" json:"n1"`
	R0 api.Request `url:"https://example.com/g110/x"`
	F4 *int        `api:"out,required" json:"n4"`
}

func (*G338) Do(ctx.C) error { return nil }

type G339 struct {
	R0 api.Request `url:"/g111/x"`
	F0 string      `api:"" enc:"n0"`
	F1 []inner     `api:"in,out" json:"n1"`
}

func (*G339) Do(ctx.C) error { return nil }

type G340 struct {
	F4 int            `api:"out" enc:"n4"`
	F2 time.Time      `api:"" enc:"n2"`
	F0 *inner         `api:"" enc:"n0"`
	F1 map[string]int `api:"out,auth" json:"n1"`
	F3 map[string]int `api:"required,out" enc:"n3"`
	R0 api.Request    `url:"/g112/x"`
}

func (*G340) Do(ctx.C) error { return nil }

type G341 struct {
	F1 time.Time   `api:"in" json:"n0"`
	F0 []inner     `api:"out,required,auth" json:"n0"`
	R2 api.Request `url:"/g113/z?v=1"`
	R0 api.Request `url:"/g113/x"`
	R1 api.Request `url:"/g113/y"`
}

func (*G341) Do(ctx.C) error { return nil }

type G342 struct {
	F1 *int        `api:"required,in" enc:"n1"`
	F2 *int        `api:"in,required" enc:"n2"`
	F4 *inner      `api:"auth,out" json:"n2"`
	F0 int         `api:"in,required" json:"n0"`
	R0 api.Request `url:"/g114/x"`
	F5 []int       `api:"" json:"n5"`
	F3 inner       `api:"required" json:"n3"`
}

func (*G342) Do(ctx.C) error { return nil }

type G343 struct {
	F1 *int        `api:"" enc:"n1"`
	F4 string      `api:"in" enc:"n4"`
	F0 *int        `api:"required,out,auth" enc:"n0"`
	R0 api.Request `url:"/g115/x?v=1"`
	F2 []string    `api:"in,required,out" enc:"n2"`
	F3 UID         `api:"" json:"n3"`
	F5 int         `api:"both" json:"n5"`
}

func (*G343) Do(ctx.C) error { return nil }

type G344 struct {
	R1 api.Request `url:"/g116/y"`
	R2 api.Request `url:"https://example.com/g116/z"`
	R0 api.Request `url:"/g116/x"`
}

func (*G344) Do(ctx.C) error { return nil }

type G345 struct {
	R0 api.Request `url:"https://example.com/g117/x"`
}

func (*G345) Do(ctx.C) error { return nil }

type G346 struct {
	F0 inner       `api:"required,out" json:"n0"`
	F3 *inner      `api:"required" enc:"n3"`
	R0 api.Request `url:"/g118/x"`
	F1 *inner      `api:"auth,out" json:"n1"`
	F2 []string    `api:"out" json:"n2"`
	R1 api.Request `url:"/g118/y"`
}

func (*G346) Do(ctx.C) error { return nil }

type G347 struct {
	R0 api.Request    `url:"https://example.com/g119/x"`
	F4 []inner        `api:"" enc:"n4"`
	F1 []string       `api:"required" json:"n1"`
	N0 int            `api:"required,auth" json:"n0"`
	N5 string         `api:"out" json:"n5"`
	F2 string         `api:"both" json:"n2"`
	F3 map[string]int `api:"" json:"n3"`
}

func (*G347) Do(ctx.C) error { return nil }

type G348 struct {
	R0 api.Request `url:"https://example.com/g120/x"`
	F0 *int        `api:"in,out,required" enc:"n0"`
}

func (*G348) Do(ctx.C) error { return nil }

type G349 struct {
	F3 []int       `api:"required,out" json:"n3"`
	F5 int         `api:"required" enc:"n5"`
	F0 *inner      `api:"" json:"n0"`
	R1 api.Request `url:"/g121/y"`
	R0 api.Request `url:"https://example.com/g121/x"`
	F2 []inner     `api:"out,in" enc:"n2"`
	F1 string      `api:"auth" enc:"n1"`
	F4 bool        `api:"required,out" enc:"n4"`
}

func (*G349) Do(ctx.C) error { return nil }

type G350 struct {
	R0 api.Request `url:"/g122/x"`
	N0 []inner     `api:"out,auth,required" json:"n0"`
}

func (*G350) Do(ctx.C) error { return nil }

type G351 struct {
	R0 api.Request `url:"/g123/x?v=1"`
	F0 []string    `api:"out" json:"n0"`
	R1 api.Request `url:"/g123/y"`
}

func (*G351) Do(ctx.C) error { return nil }

type G352 struct {
	F2 time.Time   `api:"in" enc:"n2"`
	R2 api.Request `url:"/g124/z?v=1"`
	F1 time.Time   `api:"both" json:"n1"`
	R0 api.Request `url:"/g124/x"`
	F3 *inner      `api:"required" json:"n3"`
	R1 api.Request `url:"/g124/y"`
	F0 int         `api:"in" enc:"n0"`
}

func (*G352) Do(ctx.C) error { return nil }

type G353 struct {
	N2 int         `api:"required" json:"n2"`
	F3 time.Time   `api:"" json:"n3"`
	R0 api.Request `url:"/g125/x?v=1"`
	F0 UID         `api:"auth" json:"n0"`
	N1 int         `api:"out,required" json:"n1"`
}

func (*G353) Do(ctx.C) error { return nil }

type G354 struct {
	F3 string      `api:"out,required" enc:"n3"`
	R0 api.Request `url:"/g126/x?v=1"`
	F2 string      `api:"required" json:"n2"`
	F0 inner       `api:"out,auth" json:"n0"`
	F1 bool        `api:"in" enc:"n0"`
}

func (*G354) Do(ctx.C) error { return nil }

type G355 struct {
	F2 string      `api:"both" json:"n2"`
	F3 []int       `api:"out" json:"n3"`
	F1 time.Time   `api:"in" json:"n0"`
	F0 float64     `api:"auth,out" json:"n0"`
	R0 api.Request `url:"/g127/x?v=1"`
}

func (*G355) Do(ctx.C) error { return nil }

type G356 struct {
	F1 map[string]int `api:"required,in" json:"n1"`
	R0 api.Request    `url:"/g128/x"`
	F2 inner          `api:"" enc:"n2"`
	F3 time.Time      `api:"required,in" enc:"n3"`
	F0 time.Time      `api:"auth,required" enc:"n0"`
}

func (*G356) Do(ctx.C) error { return nil }

type G357 struct {
	R0 api.Request `url:"/g129/x"`
	F0 []string    `api:"required,auth,out" json:"n0"`
	F3 *inner      `api:"out,required" json:"n3"`
	R1 api.Request `url:"/g129/y?v=1"`
	F2 time.Time   `api:"" json:"n2"`
	F1 []string    `api:"" json:"n1"`
}

func (*G357) Do(ctx.C) error { return nil }

type G358 struct {
	R0 api.Request `url:"/g130/x"`
	R1 api.Request `url:"https://example.com/g130/y"`
	F1 []string    `api:"required,auth" enc:"n1"`
	R2 api.Request `url:"/g130/z"`
	F2 int         `api:"required,both" enc:"n2"`
	F0 *inner      `api:"out,in,required" enc:"n0"`
	N3 []string    `api:"required,in" json:"n3"`
}

func (*G358) Do(ctx.C) error { return nil }

type G359 struct {
	R0 api.Request `url:"https://example.com/g131/x"`
	R1 api.Request `url:"https://example.com/g131/y"`
	R2 api.Request `url:"/g131/z"`
}

func (*G359) Do(ctx.C) error { return nil }

type G360 struct {
	F1 float64     `api:"required" json:"n1"`
	R0 api.Request `url:"/g132/x"`
	F0 string      `api:"required" json:"n0"`
}

func (*G360) Do(ctx.C) error { return nil }

type G361 struct {
	F3 map[string]int `api:"out" json:"n3"`
	R0 api.Request    `url:"/g133/x"`
	F2 float64        `api:"required,out" enc:"n2"`
	R1 api.Request    `url:"/g133/y?v=1"`
	F1 UID            `api:"" enc:"n1"`
	F0 *int           `api:"auth,required" enc:"n0"`
}

func (*G361) Do(ctx.C) error { return nil }

type G362 struct {
	R0 api.Request `url:"/g134/x"`
	R1 api.Request `url:"https://example.com/g134/y"`
	F0 bool        `api:"required,auth,out" enc:"n0"`
}

func (*G362) Do(ctx.C) error { return nil }

type G363 struct {
	R1 api.Request `url:"/g135/y"`
	R0 api.Request `url:"/g135/x"`
	F0 inner       `api:"out" enc:"n0"`
	F1 inner       `api:"required,both" enc:"n1"`
}

func (*G363) Do(ctx.C) error { return nil }

type G364 struct {
	N0 bool        `api:"both,required" json:"n0"`
	R0 api.Request `url:"/g136/x"`
}

func (*G364) Do(ctx.C) error { return nil }

type G365 struct {
	F5 inner          `api:"" enc:"n5"`
	F3 map[string]int `api:"required" enc:"n3"`
	R0 api.Request    `url:"/g137/x"`
	F1 []inner        `api:"auth" json:"n1"`
	F4 UID            `api:"" enc:"n4"`
	F2 string         `api:"out,required" json:"n2"`
	F0 *int           `api:"required" json:"n0"`
}

func (*G365) Do(ctx.C) error { return nil }

type G366 struct {
	R1 api.Request `url:"/g138/y"`
	R0 api.Request `url:"/g138/x"`
	R2 api.Request `url:"/g138/z"`
}

func (*G366) Do(ctx.C) error { return nil }

type G367 struct {
	R2 api.Request `url:"/g139/z"`
	R0 api.Request `url:"/g139/x"`
	F0 []int       `api:"" enc:"n0"`
	R1 api.Request `url:"https://example.com/g139/y"`
}

func (*G367) Do(ctx.C) error { return nil }

type G368 struct {
	F2 string      `api:"auth" json:"n2"`
	R1 api.Request `url:"/g140/y"`
	F4 []string    `api:"required" json:"n4"`
	F0 int         `api:"in,out" json:"n0"`
	F3 string      `api:"in" json:"n3"`
	R0 api.Request `url:"/g140/x"`
	R2 api.Request `url:"/g140/z"`
	N1 int         `api:"" json:"n1"`
}

func (*G368) Do(ctx.C) error { return nil }

type G369 struct {
	N1 []string    `api:"out,required" json:"n1"`
	R0 api.Request `url:"/g141/x"`
	F0 *int        `api:"" enc:"n0"`
}

func (*G369) Do(ctx.C) error { return nil }

type G370 struct {
	N3 inner       `api:"out" json:"n3"`
	F4 bool        `api:"" enc:"n4"`
	F0 string      `api:"auth,out" enc:"n0"`
	F2 []inner     `api:"in" enc:"n0"`
	F5 time.Time   `api:"out" json:"n5"`
	F1 []string    `api:"out,required" enc:"n1"`
	R1 api.Request `url:"/g142/y"`
	R0 api.Request `url:"/g142/x"`
	R2 api.Request `url:"/g142/z"`
}

func (*G370) Do(ctx.C) error { return nil }

type G371 struct {
	F2 *inner      `api:"" enc:"n2"`
	N4 bool        `api:"out,required" json:"n4"`
	R0 api.Request `url:"https://example.com/g143/x"`
	R1 api.Request `url:"/g143/y"`
	F0 *int        `api:"in,required,out" json:"n0"`
	F5 any         `api:"" json:"n5"`
	F1 float64     `api:"in,out" enc:"n1"`
	F3 int         `api:"required,auth,out" enc:"n3"`
	R2 api.Request `url:"/g143/z?v=1"`
}

func (*G371) Do(ctx.C) error { return nil }

type G372 struct {
	F3 int         `api:"out,required" enc:"n3"`
	F1 *int        `api:"out,auth" enc:"n1"`
	R0 api.Request `url:"/g144/x?v=1"`
	F0 float64     `api:"" enc:"n0"`
	F2 *inner      `api:"out" enc:"n2"`
	F4 time.Time   `api:"out,required" enc:"n4"`
}

func (*G372) Do(ctx.C) error { return nil }

type G373 struct {
	F4 UID            `api:"both" enc:"n4"`
	R0 api.Request    `url:"/g145/x?v=1"`
	F2 int            `api:"required" json:"n2"`
	F1 UID            `api:"" enc:"n1"`
	F3 map[string]int `api:"out" json:"n3"`
	F0 []string       `api:"both" enc:"n0"`
	F5 []inner        `api:"in" json:"n5"`
}

func (*G373) Do(ctx.C) error { return nil }

type G374 struct {
	F3 bool        `api:"required" json:"n3"`
	R1 api.Request `url:"/g146/y?v=1"`
	R2 api.Request `url:"/g146/z"`
	F0 UID         `api:"auth,out" enc:"n0"`
	F1 string      `api:"out,required" enc:"n1"`
	F2 *int        `api:"out" json:"n2"`
	R0 api.Request `url:"/g146/x"`
}

func (*G374) Do(ctx.C) error { return nil }

type G375 struct {
	F5 bool           `api:"required,both" enc:"n5"`
	F3 map[string]int `api:"both" enc:"n3"`
	N0 time.Time      `api:"required" json:"n0"`
	F1 UID            `api:"out,auth" json:"n1"`
	F2 []string       `api:"out" enc:"n2"`
	F4 []inner        `api:"both,required" json:"n4"`
	R0 api.Request    `url:"/g147/x?v=1"`
}

func (*G375) Do(ctx.C) error { return nil }

type G376 struct {
	N0 time.Time      `api:"required" json:"n0"`
	R0 api.Request    `url:"/g148/x"`
	N1 int            `api:"required,out,auth" json:"n1"`
	R1 api.Request    `url:"/g148/y"`
	R2 api.Request    `url:"/g148/z"`
	F2 map[string]int `api:"" json:"n2"`
}

func (*G376) Do(ctx.C) error { return nil }

type G377 struct {
	F1 bool        `api:"auth,out,required" enc:"n0"`
	R0 api.Request `url:"/g149/x"`
	F0 []int       `api:"required,in" json:"n0"`
	F2 []inner     `api:"out" json:"n2"`
}

func (*G377) Do(ctx.C) error { return nil }

func init() {
	gen["/a:"] = func() http.Doable { return &G0{} }
	gen["/a:a"] = func() http.Doable { return &G1{} }
	gen["/a:r"] = func() http.Doable { return &G2{} }
	gen["/a:ra"] = func() http.Doable { return &G3{} }
	gen["/a:o"] = func() http.Doable { return &G4{} }
	gen["/a:oa"] = func() http.Doable { return &G5{} }
	gen["/a:or"] = func() http.Doable { return &G6{} }
	gen["/a:ora"] = func() http.Doable { return &G7{} }
	gen["/a:i"] = func() http.Doable { return &G8{} }
	gen["/a:ir"] = func() http.Doable { return &G9{} }
	gen["/a:io"] = func() http.Doable { return &G10{} }
	gen["/a:ior"] = func() http.Doable { return &G11{} }
	gen["/a::a"] = func() http.Doable { return &G12{} }
	gen["/a::o"] = func() http.Doable { return &G13{} }
	gen["/a::oa"] = func() http.Doable { return &G14{} }
	gen["/a::or"] = func() http.Doable { return &G15{} }
	gen["/a::i"] = func() http.Doable { return &G16{} }
	gen["/a::ir"] = func() http.Doable { return &G17{} }
	gen["/a:a:o"] = func() http.Doable { return &G18{} }
	gen["/a:a:or"] = func() http.Doable { return &G19{} }
	gen["/a:a:i"] = func() http.Doable { return &G20{} }
	gen["/a:a:ir"] = func() http.Doable { return &G21{} }
	gen["/a:r:a"] = func() http.Doable { return &G22{} }
	gen["/a:r:o"] = func() http.Doable { return &G23{} }
	gen["/a:r:oa"] = func() http.Doable { return &G24{} }
	gen["/a:r:or"] = func() http.Doable { return &G25{} }
	gen["/a:r:i"] = func() http.Doable { return &G26{} }
	gen["/a:r:ir"] = func() http.Doable { return &G27{} }
	gen["/a:ra:o"] = func() http.Doable { return &G28{} }
	gen["/a:ra:or"] = func() http.Doable { return &G29{} }
	gen["/a:ra:i"] = func() http.Doable { return &G30{} }
	gen["/a:ra:ir"] = func() http.Doable { return &G31{} }
	gen["/a:o:a"] = func() http.Doable { return &G32{} }
	gen["/a:o:o"] = func() http.Doable { return &G33{} }
	gen["/a:o:oa"] = func() http.Doable { return &G34{} }
	gen["/a:o:or"] = func() http.Doable { return &G35{} }
	gen["/a:o:i"] = func() http.Doable { return &G36{} }
	gen["/a:o:ir"] = func() http.Doable { return &G37{} }
	gen["/a:oa:o"] = func() http.Doable { return &G38{} }
	gen["/a:oa:or"] = func() http.Doable { return &G39{} }
	gen["/a:oa:i"] = func() http.Doable { return &G40{} }
	gen["/a:oa:ir"] = func() http.Doable { return &G41{} }
	gen["/a:or:a"] = func() http.Doable { return &G42{} }
	gen["/a:or:o"] = func() http.Doable { return &G43{} }
	gen["/a:or:oa"] = func() http.Doable { return &G44{} }
	gen["/a:or:or"] = func() http.Doable { return &G45{} }
	gen["/a:or:i"] = func() http.Doable { return &G46{} }
	gen["/a:or:ir"] = func() http.Doable { return &G47{} }
	gen["/a:ora:o"] = func() http.Doable { return &G48{} }
	gen["/a:ora:or"] = func() http.Doable { return &G49{} }
	gen["/a:ora:i"] = func() http.Doable { return &G50{} }
	gen["/a:ora:ir"] = func() http.Doable { return &G51{} }
	gen["/a:i:a"] = func() http.Doable { return &G52{} }
	gen["/a:i:o"] = func() http.Doable { return &G53{} }
	gen["/a:i:oa"] = func() http.Doable { return &G54{} }
	gen["/a:i:or"] = func() http.Doable { return &G55{} }
	gen["/a:i:i"] = func() http.Doable { return &G56{} }
	gen["/a:i:ir"] = func() http.Doable { return &G57{} }
	gen["/a:ir:a"] = func() http.Doable { return &G58{} }
	gen["/a:ir:o"] = func() http.Doable { return &G59{} }
	gen["/a:ir:oa"] = func() http.Doable { return &G60{} }
	gen["/a:ir:or"] = func() http.Doable { return &G61{} }
	gen["/a:ir:i"] = func() http.Doable { return &G62{} }
	gen["/a:ir:ir"] = func() http.Doable { return &G63{} }
	gen["/a:io:a"] = func() http.Doable { return &G64{} }
	gen["/a:io:o"] = func() http.Doable { return &G65{} }
	gen["/a:io:oa"] = func() http.Doable { return &G66{} }
	gen["/a:io:or"] = func() http.Doable { return &G67{} }
	gen["/a:io:i"] = func() http.Doable { return &G68{} }
	gen["/a:io:ir"] = func() http.Doable { return &G69{} }
	gen["/a:ior:a"] = func() http.Doable { return &G70{} }
	gen["/a:ior:o"] = func() http.Doable { return &G71{} }
	gen["/a:ior:oa"] = func() http.Doable { return &G72{} }
	gen["/a:ior:or"] = func() http.Doable { return &G73{} }
	gen["/a:ior:i"] = func() http.Doable { return &G74{} }
	gen["/a:ior:ir"] = func() http.Doable { return &G75{} }
	gen["/b:"] = func() http.Doable { return &G76{} }
	gen["/b:a"] = func() http.Doable { return &G77{} }
	gen["/b:r"] = func() http.Doable { return &G78{} }
	gen["/b:ra"] = func() http.Doable { return &G79{} }
	gen["/b:o"] = func() http.Doable { return &G80{} }
	gen["/b:oa"] = func() http.Doable { return &G81{} }
	gen["/b:or"] = func() http.Doable { return &G82{} }
	gen["/b:ora"] = func() http.Doable { return &G83{} }
	gen["/b:i"] = func() http.Doable { return &G84{} }
	gen["/b:ir"] = func() http.Doable { return &G85{} }
	gen["/b:io"] = func() http.Doable { return &G86{} }
	gen["/b:ior"] = func() http.Doable { return &G87{} }
	gen["/b::a"] = func() http.Doable { return &G88{} }
	gen["/b::o"] = func() http.Doable { return &G89{} }
	gen["/b::oa"] = func() http.Doable { return &G90{} }
	gen["/b::or"] = func() http.Doable { return &G91{} }
	gen["/b::i"] = func() http.Doable { return &G92{} }
	gen["/b::ir"] = func() http.Doable { return &G93{} }
	gen["/b:a:o"] = func() http.Doable { return &G94{} }
	gen["/b:a:or"] = func() http.Doable { return &G95{} }
	gen["/b:a:i"] = func() http.Doable { return &G96{} }
	gen["/b:a:ir"] = func() http.Doable { return &G97{} }
	gen["/b:r:a"] = func() http.Doable { return &G98{} }
	gen["/b:r:o"] = func() http.Doable { return &G99{} }
	gen["/b:r:oa"] = func() http.Doable { return &G100{} }
	gen["/b:r:or"] = func() http.Doable { return &G101{} }
	gen["/b:r:i"] = func() http.Doable { return &G102{} }
	gen["/b:r:ir"] = func() http.Doable { return &G103{} }
	gen["/b:ra:o"] = func() http.Doable { return &G104{} }
	gen["/b:ra:or"] = func() http.Doable { return &G105{} }
	gen["/b:ra:i"] = func() http.Doable { return &G106{} }
	gen["/b:ra:ir"] = func() http.Doable { return &G107{} }
	gen["/b:o:a"] = func() http.Doable { return &G108{} }
	gen["/b:o:o"] = func() http.Doable { return &G109{} }
	gen["/b:o:oa"] = func() http.Doable { return &G110{} }
	gen["/b:o:or"] = func() http.Doable { return &G111{} }
	gen["/b:o:i"] = func() http.Doable { return &G112{} }
	gen["/b:o:ir"] = func() http.Doable { return &G113{} }
	gen["/b:oa:o"] = func() http.Doable { return &G114{} }
	gen["/b:oa:or"] = func() http.Doable { return &G115{} }
	gen["/b:oa:i"] = func() http.Doable { return &G116{} }
	gen["/b:oa:ir"] = func() http.Doable { return &G117{} }
	gen["/b:or:a"] = func() http.Doable { return &G118{} }
	gen["/b:or:o"] = func() http.Doable { return &G119{} }
	gen["/b:or:oa"] = func() http.Doable { return &G120{} }
	gen["/b:or:or"] = func() http.Doable { return &G121{} }
	gen["/b:or:i"] = func() http.Doable { return &G122{} }
	gen["/b:or:ir"] = func() http.Doable { return &G123{} }
	gen["/b:ora:o"] = func() http.Doable { return &G124{} }
	gen["/b:ora:or"] = func() http.Doable { return &G125{} }
	gen["/b:ora:i"] = func() http.Doable { return &G126{} }
	gen["/b:ora:ir"] = func() http.Doable { return &G127{} }
	gen["/b:i:a"] = func() http.Doable { return &G128{} }
	gen["/b:i:o"] = func() http.Doable { return &G129{} }
	gen["/b:i:oa"] = func() http.Doable { return &G130{} }
	gen["/b:i:or"] = func() http.Doable { return &G131{} }
	gen["/b:i:i"] = func() http.Doable { return &G132{} }
	gen["/b:i:ir"] = func() http.Doable { return &G133{} }
	gen["/b:ir:a"] = func() http.Doable { return &G134{} }
	gen["/b:ir:o"] = func() http.Doable { return &G135{} }
	gen["/b:ir:oa"] = func() http.Doable { return &G136{} }
	gen["/b:ir:or"] = func() http.Doable { return &G137{} }
	gen["/b:ir:i"] = func() http.Doable { return &G138{} }
	gen["/b:ir:ir"] = func() http.Doable { return &G139{} }
	gen["/b:io:a"] = func() http.Doable { return &G140{} }
	gen["/b:io:o"] = func() http.Doable { return &G141{} }
	gen["/b:io:oa"] = func() http.Doable { return &G142{} }
	gen["/b:io:or"] = func() http.Doable { return &G143{} }
	gen["/b:io:i"] = func() http.Doable { return &G144{} }
	gen["/b:io:ir"] = func() http.Doable { return &G145{} }
	gen["/b:ior:a"] = func() http.Doable { return &G146{} }
	gen["/b:ior:o"] = func() http.Doable { return &G147{} }
	gen["/b:ior:oa"] = func() http.Doable { return &G148{} }
	gen["/b:ior:or"] = func() http.Doable { return &G149{} }
	gen["/b:ior:i"] = func() http.Doable { return &G150{} }
	gen["/b:ior:ir"] = func() http.Doable { return &G151{} }
	gen["/c:"] = func() http.Doable { return &G152{} }
	gen["/c:a"] = func() http.Doable { return &G153{} }
	gen["/c:r"] = func() http.Doable { return &G154{} }
	gen["/c:ra"] = func() http.Doable { return &G155{} }
	gen["/c:o"] = func() http.Doable { return &G156{} }
	gen["/c:oa"] = func() http.Doable { return &G157{} }
	gen["/c:or"] = func() http.Doable { return &G158{} }
	gen["/c:ora"] = func() http.Doable { return &G159{} }
	gen["/c:i"] = func() http.Doable { return &G160{} }
	gen["/c:ir"] = func() http.Doable { return &G161{} }
	gen["/c:io"] = func() http.Doable { return &G162{} }
	gen["/c:ior"] = func() http.Doable { return &G163{} }
	gen["/c::a"] = func() http.Doable { return &G164{} }
	gen["/c::o"] = func() http.Doable { return &G165{} }
	gen["/c::oa"] = func() http.Doable { return &G166{} }
	gen["/c::or"] = func() http.Doable { return &G167{} }
	gen["/c::i"] = func() http.Doable { return &G168{} }
	gen["/c::ir"] = func() http.Doable { return &G169{} }
	gen["/c:a:o"] = func() http.Doable { return &G170{} }
	gen["/c:a:or"] = func() http.Doable { return &G171{} }
	gen["/c:a:i"] = func() http.Doable { return &G172{} }
	gen["/c:a:ir"] = func() http.Doable { return &G173{} }
	gen["/c:r:a"] = func() http.Doable { return &G174{} }
	gen["/c:r:o"] = func() http.Doable { return &G175{} }
	gen["/c:r:oa"] = func() http.Doable { return &G176{} }
	gen["/c:r:or"] = func() http.Doable { return &G177{} }
	gen["/c:r:i"] = func() http.Doable { return &G178{} }
	gen["/c:r:ir"] = func() http.Doable { return &G179{} }
	gen["/c:ra:o"] = func() http.Doable { return &G180{} }
	gen["/c:ra:or"] = func() http.Doable { return &G181{} }
	gen["/c:ra:i"] = func() http.Doable { return &G182{} }
	gen["/c:ra:ir"] = func() http.Doable { return &G183{} }
	gen["/c:o:a"] = func() http.Doable { return &G184{} }
	gen["/c:o:o"] = func() http.Doable { return &G185{} }
	gen["/c:o:oa"] = func() http.Doable { return &G186{} }
	gen["/c:o:or"] = func() http.Doable { return &G187{} }
	gen["/c:o:i"] = func() http.Doable { return &G188{} }
	gen["/c:o:ir"] = func() http.Doable { return &G189{} }
	gen["/c:oa:o"] = func() http.Doable { return &G190{} }
	gen["/c:oa:or"] = func() http.Doable { return &G191{} }
	gen["/c:oa:i"] = func() http.Doable { return &G192{} }
	gen["/c:oa:ir"] = func() http.Doable { return &G193{} }
	gen["/c:or:a"] = func() http.Doable { return &G194{} }
	gen["/c:or:o"] = func() http.Doable { return &G195{} }
	gen["/c:or:oa"] = func() http.Doable { return &G196{} }
	gen["/c:or:or"] = func() http.Doable { return &G197{} }
	gen["/c:or:i"] = func() http.Doable { return &G198{} }
	gen["/c:or:ir"] = func() http.Doable { return &G199{} }
	gen["/c:ora:o"] = func() http.Doable { return &G200{} }
	gen["/c:ora:or"] = func() http.Doable { return &G201{} }
	gen["/c:ora:i"] = func() http.Doable { return &G202{} }
	gen["/c:ora:ir"] = func() http.Doable { return &G203{} }
	gen["/c:i:a"] = func() http.Doable { return &G204{} }
	gen["/c:i:o"] = func() http.Doable { return &G205{} }
	gen["/c:i:oa"] = func() http.Doable { return &G206{} }
	gen["/c:i:or"] = func() http.Doable { return &G207{} }
	gen["/c:i:i"] = func() http.Doable { return &G208{} }
	gen["/c:i:ir"] = func() http.Doable { return &G209{} }
	gen["/c:ir:a"] = func() http.Doable { return &G210{} }
	gen["/c:ir:o"] = func() http.Doable { return &G211{} }
	gen["/c:ir:oa"] = func() http.Doable { return &G212{} }
	gen["/c:ir:or"] = func() http.Doable { return &G213{} }
	gen["/c:ir:i"] = func() http.Doable { return &G214{} }
	gen["/c:ir:ir"] = func() http.Doable { return &G215{} }
	gen["/c:io:a"] = func() http.Doable { return &G216{} }
	gen["/c:io:o"] = func() http.Doable { return &G217{} }
	gen["/c:io:oa"] = func() http.Doable { return &G218{} }
	gen["/c:io:or"] = func() http.Doable { return &G219{} }
	gen["/c:io:i"] = func() http.Doable { return &G220{} }
	gen["/c:io:ir"] = func() http.Doable { return &G221{} }
	gen["/c:ior:a"] = func() http.Doable { return &G222{} }
	gen["/c:ior:o"] = func() http.Doable { return &G223{} }
	gen["/c:ior:oa"] = func() http.Doable { return &G224{} }
	gen["/c:ior:or"] = func() http.Doable { return &G225{} }
	gen["/c:ior:i"] = func() http.Doable { return &G226{} }
	gen["/c:ior:ir"] = func() http.Doable { return &G227{} }
	gen["rnd0"] = func() http.Doable { return &G228{} }
	genDesc = append(genDesc, "{\"key\": \"rnd0\", \"fields\": [], \"paths\": [\"/g0/x\", \"/g0/y\"]}")
	gen["rnd1"] = func() http.Doable { return &G229{} }
	genDesc = append(genDesc, "{\"key\": \"rnd1\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g1/x\", \"/g1/y\"]}")
	gen["rnd2"] = func() http.Doable { return &G230{} }
	genDesc = append(genDesc, "{\"key\": \"rnd2\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g2/x\", \"/g2/y\"]}")
	gen["rnd3"] = func() http.Doable { return &G231{} }
	genDesc = append(genDesc, "{\"key\": \"rnd3\", \"fields\": [], \"paths\": [\"/g3/x\"]}")
	gen["rnd4"] = func() http.Doable { return &G232{} }
	genDesc = append(genDesc, "{\"key\": \"rnd4\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g4/x\"]}")
	gen["rnd5"] = func() http.Doable { return &G233{} }
	genDesc = append(genDesc, "{\"key\": \"rnd5\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"string\"}], \"paths\": [\"/g5/x\"]}")
	gen["rnd6"] = func() http.Doable { return &G234{} }
	genDesc = append(genDesc, "{\"key\": \"rnd6\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g6/x\"]}")
	gen["rnd7"] = func() http.Doable { return &G235{} }
	genDesc = append(genDesc, "{\"key\": \"rnd7\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g7/x\"]}")
	gen["rnd8"] = func() http.Doable { return &G236{} }
	genDesc = append(genDesc, "{\"key\": \"rnd8\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g8/x\", \"/g8/y\"]}")
	gen["rnd9"] = func() http.Doable { return &G237{} }
	genDesc = append(genDesc, "{\"key\": \"rnd9\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"array\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g9/x\", \"/g9/y\"]}")
	gen["rnd10"] = func() http.Doable { return &G238{} }
	genDesc = append(genDesc, "{\"key\": \"rnd10\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g10/x\", \"/g10/y\", \"/g10/z\"]}")
	gen["rnd11"] = func() http.Doable { return &G239{} }
	genDesc = append(genDesc, "{\"key\": \"rnd11\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g11/x\"]}")
	gen["rnd12"] = func() http.Doable { return &G240{} }
	genDesc = append(genDesc, "{\"key\": \"rnd12\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g12/x\", \"/g12/y\", \"/g12/z\"]}")
	gen["rnd13"] = func() http.Doable { return &G241{} }
	genDesc = append(genDesc, "{\"key\": \"rnd13\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g13/x\"]}")
	gen["rnd14"] = func() http.Doable { return &G242{} }
	genDesc = append(genDesc, "{\"key\": \"rnd14\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"number\"}], \"paths\": [\"/g14/x\", \"/g14/y\"]}")
	gen["rnd15"] = func() http.Doable { return &G243{} }
	genDesc = append(genDesc, "{\"key\": \"rnd15\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g15/x\", \"/g15/y\", \"/g15/z\"]}")
	gen["rnd16"] = func() http.Doable { return &G244{} }
	genDesc = append(genDesc, "{\"key\": \"rnd16\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g16/x\"]}")
	gen["rnd17"] = func() http.Doable { return &G245{} }
	genDesc = append(genDesc, "{\"key\": \"rnd17\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g17/x\"]}")
	gen["rnd18"] = func() http.Doable { return &G246{} }
	genDesc = append(genDesc, "{\"key\": \"rnd18\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n5\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g18/x\"]}")
	gen["rnd19"] = func() http.Doable { return &G247{} }
	genDesc = append(genDesc, "{\"key\": \"rnd19\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g19/x\", \"/g19/y\"]}")
	gen["rnd20"] = func() http.Doable { return &G248{} }
	genDesc = append(genDesc, "{\"key\": \"rnd20\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g20/x\"]}")
	gen["rnd21"] = func() http.Doable { return &G249{} }
	genDesc = append(genDesc, "{\"key\": \"rnd21\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g21/x\", \"/g21/y\", \"/g21/z\"]}")
	gen["rnd22"] = func() http.Doable { return &G250{} }
	genDesc = append(genDesc, "{\"key\": \"rnd22\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n4\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g22/x\"]}")
	gen["rnd23"] = func() http.Doable { return &G251{} }
	genDesc = append(genDesc, "{\"key\": \"rnd23\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g23/x\"]}")
	gen["rnd24"] = func() http.Doable { return &G252{} }
	genDesc = append(genDesc, "{\"key\": \"rnd24\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"boolean\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g24/x\"]}")
	gen["rnd25"] = func() http.Doable { return &G253{} }
	genDesc = append(genDesc, "{\"key\": \"rnd25\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g25/x\", \"/g25/y\", \"/g25/z\"]}")
	gen["rnd26"] = func() http.Doable { return &G254{} }
	genDesc = append(genDesc, "{\"key\": \"rnd26\", \"fields\": [], \"paths\": [\"/g26/x\"]}")
	gen["rnd27"] = func() http.Doable { return &G255{} }
	genDesc = append(genDesc, "{\"key\": \"rnd27\", \"fields\": [], \"paths\": [\"/g27/x\", \"/g27/y\"]}")
	gen["rnd28"] = func() http.Doable { return &G256{} }
	genDesc = append(genDesc, "{\"key\": \"rnd28\", \"fields\": [], \"paths\": [\"/g28/x\"]}")
	gen["rnd29"] = func() http.Doable { return &G257{} }
	genDesc = append(genDesc, "{\"key\": \"rnd29\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g29/x\"]}")
	gen["rnd30"] = func() http.Doable { return &G258{} }
	genDesc = append(genDesc, "{\"key\": \"rnd30\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g30/x\"]}")
	gen["rnd31"] = func() http.Doable { return &G259{} }
	genDesc = append(genDesc, "{\"key\": \"rnd31\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g31/x\", \"/g31/y\"]}")
	gen["rnd32"] = func() http.Doable { return &G260{} }
	genDesc = append(genDesc, "{\"key\": \"rnd32\", \"fields\": [], \"paths\": [\"/g32/x\", \"/g32/y\"]}")
	gen["rnd33"] = func() http.Doable { return &G261{} }
	genDesc = append(genDesc, "{\"key\": \"rnd33\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"boolean\"}], \"paths\": [\"/g33/x\"]}")
	gen["rnd34"] = func() http.Doable { return &G262{} }
	genDesc = append(genDesc, "{\"key\": \"rnd34\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g34/x\"]}")
	gen["rnd35"] = func() http.Doable { return &G263{} }
	genDesc = append(genDesc, "{\"key\": \"rnd35\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g35/x\"]}")
	gen["rnd36"] = func() http.Doable { return &G264{} }
	genDesc = append(genDesc, "{\"key\": \"rnd36\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n5\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g36/x\"]}")
	gen["rnd37"] = func() http.Doable { return &G265{} }
	genDesc = append(genDesc, "{\"key\": \"rnd37\", \"fields\": [], \"paths\": [\"/g37/x\"]}")
	gen["rnd38"] = func() http.Doable { return &G266{} }
	genDesc = append(genDesc, "{\"key\": \"rnd38\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g38/x\"]}")
	gen["rnd39"] = func() http.Doable { return &G267{} }
	genDesc = append(genDesc, "{\"key\": \"rnd39\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g39/x\"]}")
	gen["rnd40"] = func() http.Doable { return &G268{} }
	genDesc = append(genDesc, "{\"key\": \"rnd40\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g40/x\", \"/g40/y\"]}")
	gen["rnd41"] = func() http.Doable { return &G269{} }
	genDesc = append(genDesc, "{\"key\": \"rnd41\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n5\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g41/x\"]}")
	gen["rnd42"] = func() http.Doable { return &G270{} }
	genDesc = append(genDesc, "{\"key\": \"rnd42\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g42/x\"]}")
	gen["rnd43"] = func() http.Doable { return &G271{} }
	genDesc = append(genDesc, "{\"key\": \"rnd43\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g43/x\", \"/g43/y\", \"/g43/z\"]}")
	gen["rnd44"] = func() http.Doable { return &G272{} }
	genDesc = append(genDesc, "{\"key\": \"rnd44\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g44/x\", \"/g44/y\"]}")
	gen["rnd45"] = func() http.Doable { return &G273{} }
	genDesc = append(genDesc, "{\"key\": \"rnd45\", \"fields\": [], \"paths\": [\"/g45/x\", \"/g45/y\"]}")
	gen["rnd46"] = func() http.Doable { return &G274{} }
	genDesc = append(genDesc, "{\"key\": \"rnd46\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"boolean\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g46/x\"]}")
	gen["rnd47"] = func() http.Doable { return &G275{} }
	genDesc = append(genDesc, "{\"key\": \"rnd47\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g47/x\"]}")
	gen["rnd48"] = func() http.Doable { return &G276{} }
	genDesc = append(genDesc, "{\"key\": \"rnd48\", \"fields\": [], \"paths\": [\"/g48/x\"]}")
	gen["rnd49"] = func() http.Doable { return &G277{} }
	genDesc = append(genDesc, "{\"key\": \"rnd49\", \"fields\": [], \"paths\": [\"/g49/x\", \"/g49/y\", \"/g49/z\"]}")
	gen["rnd50"] = func() http.Doable { return &G278{} }
	genDesc = append(genDesc, "{\"key\": \"rnd50\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"boolean\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g50/x\"]}")
	gen["rnd51"] = func() http.Doable { return &G279{} }
	genDesc = append(genDesc, "{\"key\": \"rnd51\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"object\"}], \"paths\": [\"/g51/x\"]}")
	gen["rnd52"] = func() http.Doable { return &G280{} }
	genDesc = append(genDesc, "{\"key\": \"rnd52\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g52/x\"]}")
	gen["rnd53"] = func() http.Doable { return &G281{} }
	genDesc = append(genDesc, "{\"key\": \"rnd53\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g53/x\", \"/g53/y\"]}")
	gen["rnd54"] = func() http.Doable { return &G282{} }
	genDesc = append(genDesc, "{\"key\": \"rnd54\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g54/x\"]}")
	gen["rnd55"] = func() http.Doable { return &G283{} }
	genDesc = append(genDesc, "{\"key\": \"rnd55\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g55/x\", \"/g55/y\", \"/g55/z\"]}")
	gen["rnd56"] = func() http.Doable { return &G284{} }
	genDesc = append(genDesc, "{\"key\": \"rnd56\", \"fields\": [], \"paths\": [\"/g56/x\"]}")
	gen["rnd57"] = func() http.Doable { return &G285{} }
	genDesc = append(genDesc, "{\"key\": \"rnd57\", \"fields\": [], \"paths\": [\"/g57/x\"]}")
	gen["rnd58"] = func() http.Doable { return &G286{} }
	genDesc = append(genDesc, "{\"key\": \"rnd58\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g58/x\"]}")
	gen["rnd59"] = func() http.Doable { return &G287{} }
	genDesc = append(genDesc, "{\"key\": \"rnd59\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g59/x\", \"/g59/y\", \"/g59/z\"]}")
	gen["rnd60"] = func() http.Doable { return &G288{} }
	genDesc = append(genDesc, "{\"key\": \"rnd60\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g60/x\"]}")
	gen["rnd61"] = func() http.Doable { return &G289{} }
	genDesc = append(genDesc, "{\"key\": \"rnd61\", \"fields\": [], \"paths\": [\"/g61/x\"]}")
	gen["rnd62"] = func() http.Doable { return &G290{} }
	genDesc = append(genDesc, "{\"key\": \"rnd62\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n4\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g62/x\"]}")
	gen["rnd63"] = func() http.Doable { return &G291{} }
	genDesc = append(genDesc, "{\"key\": \"rnd63\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"number\"}], \"paths\": [\"/g63/x\", \"/g63/y\", \"/g63/z\"]}")
	gen["rnd64"] = func() http.Doable { return &G292{} }
	genDesc = append(genDesc, "{\"key\": \"rnd64\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"number\"}], \"paths\": [\"/g64/x\", \"/g64/y\", \"/g64/z\"]}")
	gen["rnd65"] = func() http.Doable { return &G293{} }
	genDesc = append(genDesc, "{\"key\": \"rnd65\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g65/x\", \"/g65/y\", \"/g65/z\"]}")
	gen["rnd66"] = func() http.Doable { return &G294{} }
	genDesc = append(genDesc, "{\"key\": \"rnd66\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g66/x\"]}")
	gen["rnd67"] = func() http.Doable { return &G295{} }
	genDesc = append(genDesc, "{\"key\": \"rnd67\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g67/x\", \"/g67/y\", \"/g67/z\"]}")
	gen["rnd68"] = func() http.Doable { return &G296{} }
	genDesc = append(genDesc, "{\"key\": \"rnd68\", \"fields\": [], \"paths\": [\"/g68/x\", \"/g68/y\", \"/g68/z\"]}")
	gen["rnd69"] = func() http.Doable { return &G297{} }
	genDesc = append(genDesc, "{\"key\": \"rnd69\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g69/x\", \"/g69/y\", \"/g69/z\"]}")
	gen["rnd70"] = func() http.Doable { return &G298{} }
	genDesc = append(genDesc, "{\"key\": \"rnd70\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g70/x\", \"/g70/y\", \"/g70/z\"]}")
	gen["rnd71"] = func() http.Doable { return &G299{} }
	genDesc = append(genDesc, "{\"key\": \"rnd71\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g71/x\"]}")
	gen["rnd72"] = func() http.Doable { return &G300{} }
	genDesc = append(genDesc, "{\"key\": \"rnd72\", \"fields\": [], \"paths\": [\"/g72/x\"]}")
	gen["rnd73"] = func() http.Doable { return &G301{} }
	genDesc = append(genDesc, "{\"key\": \"rnd73\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g73/x\", \"/g73/y\"]}")
	gen["rnd74"] = func() http.Doable { return &G302{} }
	genDesc = append(genDesc, "{\"key\": \"rnd74\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"object\"}], \"paths\": [\"/g74/x\"]}")
	gen["rnd75"] = func() http.Doable { return &G303{} }
	genDesc = append(genDesc, "{\"key\": \"rnd75\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}], \"paths\": [\"/g75/x\", \"/g75/y\"]}")
	gen["rnd76"] = func() http.Doable { return &G304{} }
	genDesc = append(genDesc, "{\"key\": \"rnd76\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g76/x\"]}")
	gen["rnd77"] = func() http.Doable { return &G305{} }
	genDesc = append(genDesc, "{\"key\": \"rnd77\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g77/x\"]}")
	gen["rnd78"] = func() http.Doable { return &G306{} }
	genDesc = append(genDesc, "{\"key\": \"rnd78\", \"fields\": [], \"paths\": [\"/g78/x\"]}")
	gen["rnd79"] = func() http.Doable { return &G307{} }
	genDesc = append(genDesc, "{\"key\": \"rnd79\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g79/x\", \"/g79/y\", \"/g79/z\"]}")
	gen["rnd80"] = func() http.Doable { return &G308{} }
	genDesc = append(genDesc, "{\"key\": \"rnd80\", \"fields\": [], \"paths\": [\"/g80/x\", \"/g80/y\"]}")
	gen["rnd81"] = func() http.Doable { return &G309{} }
	genDesc = append(genDesc, "{\"key\": \"rnd81\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"array\"}], \"paths\": [\"/g81/x\"]}")
	gen["rnd82"] = func() http.Doable { return &G310{} }
	genDesc = append(genDesc, "{\"key\": \"rnd82\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g82/x\"]}")
	gen["rnd83"] = func() http.Doable { return &G311{} }
	genDesc = append(genDesc, "{\"key\": \"rnd83\", \"fields\": [], \"paths\": [\"/g83/x\", \"/g83/y\", \"/g83/z\"]}")
	gen["rnd84"] = func() http.Doable { return &G312{} }
	genDesc = append(genDesc, "{\"key\": \"rnd84\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g84/x\"]}")
	gen["rnd85"] = func() http.Doable { return &G313{} }
	genDesc = append(genDesc, "{\"key\": \"rnd85\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"object\"}], \"paths\": [\"/g85/x\", \"/g85/y\"]}")
	gen["rnd86"] = func() http.Doable { return &G314{} }
	genDesc = append(genDesc, "{\"key\": \"rnd86\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"number\"}], \"paths\": [\"/g86/x\"]}")
	gen["rnd87"] = func() http.Doable { return &G315{} }
	genDesc = append(genDesc, "{\"key\": \"rnd87\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g87/x\", \"/g87/y\"]}")
	gen["rnd88"] = func() http.Doable { return &G316{} }
	genDesc = append(genDesc, "{\"key\": \"rnd88\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g88/x\"]}")
	gen["rnd89"] = func() http.Doable { return &G317{} }
	genDesc = append(genDesc, "{\"key\": \"rnd89\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g89/x\", \"/g89/y\"]}")
	gen["rnd90"] = func() http.Doable { return &G318{} }
	genDesc = append(genDesc, "{\"key\": \"rnd90\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g90/x\", \"/g90/y\", \"/g90/z\"]}")
	gen["rnd91"] = func() http.Doable { return &G319{} }
	genDesc = append(genDesc, "{\"key\": \"rnd91\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n4\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g91/x\"]}")
	gen["rnd92"] = func() http.Doable { return &G320{} }
	genDesc = append(genDesc, "{\"key\": \"rnd92\", \"fields\": [], \"paths\": [\"/g92/x\", \"/g92/y\"]}")
	gen["rnd93"] = func() http.Doable { return &G321{} }
	genDesc = append(genDesc, "{\"key\": \"rnd93\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g93/x\"]}")
	gen["rnd94"] = func() http.Doable { return &G322{} }
	genDesc = append(genDesc, "{\"key\": \"rnd94\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"object\"}], \"paths\": [\"/g94/x\"]}")
	gen["rnd95"] = func() http.Doable { return &G323{} }
	genDesc = append(genDesc, "{\"key\": \"rnd95\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"object\"}], \"paths\": [\"/g95/x\"]}")
	gen["rnd96"] = func() http.Doable { return &G324{} }
	genDesc = append(genDesc, "{\"key\": \"rnd96\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g96/x\"]}")
	gen["rnd97"] = func() http.Doable { return &G325{} }
	genDesc = append(genDesc, "{\"key\": \"rnd97\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g97/x\"]}")
	gen["rnd98"] = func() http.Doable { return &G326{} }
	genDesc = append(genDesc, "{\"key\": \"rnd98\", \"fields\": [], \"paths\": [\"/g98/x\", \"/g98/y\"]}")
	gen["rnd99"] = func() http.Doable { return &G327{} }
	genDesc = append(genDesc, "{\"key\": \"rnd99\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g99/x\", \"/g99/y\", \"/g99/z\"]}")
	gen["rnd100"] = func() http.Doable { return &G328{} }
	genDesc = append(genDesc, "{\"key\": \"rnd100\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g100/x\", \"/g100/y\"]}")
	gen["rnd101"] = func() http.Doable { return &G329{} }
	genDesc = append(genDesc, "{\"key\": \"rnd101\", \"fields\": [], \"paths\": [\"/g101/x\", \"/g101/y\"]}")
	gen["rnd102"] = func() http.Doable { return &G330{} }
	genDesc = append(genDesc, "{\"key\": \"rnd102\", \"fields\": [], \"paths\": [\"/g102/x\"]}")
	gen["rnd103"] = func() http.Doable { return &G331{} }
	genDesc = append(genDesc, "{\"key\": \"rnd103\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g103/x\"]}")
	gen["rnd104"] = func() http.Doable { return &G332{} }
	genDesc = append(genDesc, "{\"key\": \"rnd104\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g104/x\", \"/g104/y\", \"/g104/z\"]}")
	gen["rnd105"] = func() http.Doable { return &G333{} }
	genDesc = append(genDesc, "{\"key\": \"rnd105\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g105/x\"]}")
	gen["rnd106"] = func() http.Doable { return &G334{} }
	genDesc = append(genDesc, "{\"key\": \"rnd106\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"boolean\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g106/x\", \"/g106/y\"]}")
	gen["rnd107"] = func() http.Doable { return &G335{} }
	genDesc = append(genDesc, "{\"key\": \"rnd107\", \"fields\": [], \"paths\": [\"/g107/x\", \"/g107/y\", \"/g107/z\"]}")
	gen["rnd108"] = func() http.Doable { return &G336{} }
	genDesc = append(genDesc, "{\"key\": \"rnd108\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g108/x\"]}")
	gen["rnd109"] = func() http.Doable { return &G337{} }
	genDesc = append(genDesc, "{\"key\": \"rnd109\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g109/x\"]}")
	gen["rnd110"] = func() http.Doable { return &G338{} }
	genDesc = append(genDesc, "{\"key\": \"rnd110\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n5\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g110/x\", \"/g110/y\", \"/g110/z\"]}")
	gen["rnd111"] = func() http.Doable { return &G339{} }
	genDesc = append(genDesc, "{\"key\": \"rnd111\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g111/x\"]}")
	gen["rnd112"] = func() http.Doable { return &G340{} }
	genDesc = append(genDesc, "{\"key\": \"rnd112\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g112/x\"]}")
	gen["rnd113"] = func() http.Doable { return &G341{} }
	genDesc = append(genDesc, "{\"key\": \"rnd113\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"array\"}, {\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g113/x\", \"/g113/y\", \"/g113/z\"]}")
	gen["rnd114"] = func() http.Doable { return &G342{} }
	genDesc = append(genDesc, "{\"key\": \"rnd114\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g114/x\"]}")
	gen["rnd115"] = func() http.Doable { return &G343{} }
	genDesc = append(genDesc, "{\"key\": \"rnd115\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n4\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n5\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g115/x\"]}")
	gen["rnd116"] = func() http.Doable { return &G344{} }
	genDesc = append(genDesc, "{\"key\": \"rnd116\", \"fields\": [], \"paths\": [\"/g116/x\", \"/g116/y\", \"/g116/z\"]}")
	gen["rnd117"] = func() http.Doable { return &G345{} }
	genDesc = append(genDesc, "{\"key\": \"rnd117\", \"fields\": [], \"paths\": [\"/g117/x\"]}")
	gen["rnd118"] = func() http.Doable { return &G346{} }
	genDesc = append(genDesc, "{\"key\": \"rnd118\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g118/x\", \"/g118/y\"]}")
	gen["rnd119"] = func() http.Doable { return &G347{} }
	genDesc = append(genDesc, "{\"key\": \"rnd119\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g119/x\"]}")
	gen["rnd120"] = func() http.Doable { return &G348{} }
	genDesc = append(genDesc, "{\"key\": \"rnd120\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g120/x\"]}")
	gen["rnd121"] = func() http.Doable { return &G349{} }
	genDesc = append(genDesc, "{\"key\": \"rnd121\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g121/x\", \"/g121/y\"]}")
	gen["rnd122"] = func() http.Doable { return &G350{} }
	genDesc = append(genDesc, "{\"key\": \"rnd122\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"array\"}], \"paths\": [\"/g122/x\"]}")
	gen["rnd123"] = func() http.Doable { return &G351{} }
	genDesc = append(genDesc, "{\"key\": \"rnd123\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g123/x\", \"/g123/y\"]}")
	gen["rnd124"] = func() http.Doable { return &G352{} }
	genDesc = append(genDesc, "{\"key\": \"rnd124\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g124/x\", \"/g124/y\", \"/g124/z\"]}")
	gen["rnd125"] = func() http.Doable { return &G353{} }
	genDesc = append(genDesc, "{\"key\": \"rnd125\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g125/x\"]}")
	gen["rnd126"] = func() http.Doable { return &G354{} }
	genDesc = append(genDesc, "{\"key\": \"rnd126\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"object\"}, {\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g126/x\"]}")
	gen["rnd127"] = func() http.Doable { return &G355{} }
	genDesc = append(genDesc, "{\"key\": \"rnd127\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g127/x\"]}")
	gen["rnd128"] = func() http.Doable { return &G356{} }
	genDesc = append(genDesc, "{\"key\": \"rnd128\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g128/x\"]}")
	gen["rnd129"] = func() http.Doable { return &G357{} }
	genDesc = append(genDesc, "{\"key\": \"rnd129\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g129/x\", \"/g129/y\"]}")
	gen["rnd130"] = func() http.Doable { return &G358{} }
	genDesc = append(genDesc, "{\"key\": \"rnd130\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g130/x\", \"/g130/y\", \"/g130/z\"]}")
	gen["rnd131"] = func() http.Doable { return &G359{} }
	genDesc = append(genDesc, "{\"key\": \"rnd131\", \"fields\": [], \"paths\": [\"/g131/x\", \"/g131/y\", \"/g131/z\"]}")
	gen["rnd132"] = func() http.Doable { return &G360{} }
	genDesc = append(genDesc, "{\"key\": \"rnd132\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}], \"paths\": [\"/g132/x\"]}")
	gen["rnd133"] = func() http.Doable { return &G361{} }
	genDesc = append(genDesc, "{\"key\": \"rnd133\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g133/x\", \"/g133/y\"]}")
	gen["rnd134"] = func() http.Doable { return &G362{} }
	genDesc = append(genDesc, "{\"key\": \"rnd134\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"boolean\"}], \"paths\": [\"/g134/x\", \"/g134/y\"]}")
	gen["rnd135"] = func() http.Doable { return &G363{} }
	genDesc = append(genDesc, "{\"key\": \"rnd135\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g135/x\", \"/g135/y\"]}")
	gen["rnd136"] = func() http.Doable { return &G364{} }
	genDesc = append(genDesc, "{\"key\": \"rnd136\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g136/x\"]}")
	gen["rnd137"] = func() http.Doable { return &G365{} }
	genDesc = append(genDesc, "{\"key\": \"rnd137\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"array\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g137/x\"]}")
	gen["rnd138"] = func() http.Doable { return &G366{} }
	genDesc = append(genDesc, "{\"key\": \"rnd138\", \"fields\": [], \"paths\": [\"/g138/x\", \"/g138/y\", \"/g138/z\"]}")
	gen["rnd139"] = func() http.Doable { return &G367{} }
	genDesc = append(genDesc, "{\"key\": \"rnd139\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g139/x\", \"/g139/y\", \"/g139/z\"]}")
	gen["rnd140"] = func() http.Doable { return &G368{} }
	genDesc = append(genDesc, "{\"key\": \"rnd140\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g140/x\", \"/g140/y\", \"/g140/z\"]}")
	gen["rnd141"] = func() http.Doable { return &G369{} }
	genDesc = append(genDesc, "{\"key\": \"rnd141\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g141/x\"]}")
	gen["rnd142"] = func() http.Doable { return &G370{} }
	genDesc = append(genDesc, "{\"key\": \"rnd142\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g142/x\", \"/g142/y\", \"/g142/z\"]}")
	gen["rnd143"] = func() http.Doable { return &G371{} }
	genDesc = append(genDesc, "{\"key\": \"rnd143\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"boolean\"}, {\"name\": \"n5\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g143/x\", \"/g143/y\", \"/g143/z\"]}")
	gen["rnd144"] = func() http.Doable { return &G372{} }
	genDesc = append(genDesc, "{\"key\": \"rnd144\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n4\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}], \"paths\": [\"/g144/x\"]}")
	gen["rnd145"] = func() http.Doable { return &G373{} }
	genDesc = append(genDesc, "{\"key\": \"rnd145\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n5\", \"decl\": {\"in\": true, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g145/x\"]}")
	gen["rnd146"] = func() http.Doable { return &G374{} }
	genDesc = append(genDesc, "{\"key\": \"rnd146\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"number\"}, {\"name\": \"n3\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g146/x\", \"/g146/y\", \"/g146/z\"]}")
	gen["rnd147"] = func() http.Doable { return &G375{} }
	genDesc = append(genDesc, "{\"key\": \"rnd147\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": true}, \"t\": \"string\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n3\", \"decl\": {\"in\": true, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"object\"}, {\"name\": \"n4\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n5\", \"decl\": {\"in\": true, \"out\": true, \"req\": true, \"auth\": false}, \"t\": \"boolean\"}], \"paths\": [\"/g147/x\"]}")
	gen["rnd148"] = func() http.Doable { return &G376{} }
	genDesc = append(genDesc, "{\"key\": \"rnd148\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"string\"}, {\"name\": \"n1\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"number\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": false, \"req\": false, \"auth\": false}, \"t\": \"object\"}], \"paths\": [\"/g148/x\", \"/g148/y\", \"/g148/z\"]}")
	gen["rnd149"] = func() http.Doable { return &G377{} }
	genDesc = append(genDesc, "{\"key\": \"rnd149\", \"fields\": [{\"name\": \"n0\", \"decl\": {\"in\": true, \"out\": false, \"req\": true, \"auth\": false}, \"t\": \"array\"}, {\"name\": \"n0\", \"decl\": {\"in\": false, \"out\": true, \"req\": true, \"auth\": true}, \"t\": \"boolean\"}, {\"name\": \"n2\", \"decl\": {\"in\": false, \"out\": true, \"req\": false, \"auth\": false}, \"t\": \"array\"}], \"paths\": [\"/g149/x\"]}")
}
