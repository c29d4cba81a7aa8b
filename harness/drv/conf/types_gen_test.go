// generated by tools/genconf.py
package conf

func init() {
	reg([]field{{"bool", "none", ""}}, struct {
		F0 bool 
	}{})
	reg([]field{{"bool", "plain", ""}}, struct {
		F0 bool `config:"K0"`
	}{})
	reg([]field{{"bool", "bogus", ""}}, struct {
		F0 bool `config:"K0,bogus=1"`
	}{})
	reg([]field{{"bool", "late", ""}}, struct {
		F0 bool `config:"K0,default=1,required"`
	}{})
	reg([]field{{"bool", "def", ""}}, struct {
		F0 bool `config:"K0,default="`
	}{})
	reg([]field{{"bool", "def", "1"}}, struct {
		F0 bool `config:"K0,default=1"`
	}{})
	reg([]field{{"bool", "def", "a"}}, struct {
		F0 bool `config:"K0,default=a"`
	}{})
	reg([]field{{"bool", "def", "bad"}}, struct {
		F0 bool `config:"K0,default=bad"`
	}{})
	reg([]field{{"bool", "def", "a=1"}}, struct {
		F0 bool `config:"K0,default=a=1"`
	}{})
	reg([]field{{"nbool", "none", ""}}, struct {
		F0 NBool 
	}{})
	reg([]field{{"nbool", "plain", ""}}, struct {
		F0 NBool `config:"K0"`
	}{})
	reg([]field{{"nbool", "bogus", ""}}, struct {
		F0 NBool `config:"K0,bogus=1"`
	}{})
	reg([]field{{"nbool", "late", ""}}, struct {
		F0 NBool `config:"K0,default=1,required"`
	}{})
	reg([]field{{"nbool", "def", ""}}, struct {
		F0 NBool `config:"K0,default="`
	}{})
	reg([]field{{"nbool", "def", "1"}}, struct {
		F0 NBool `config:"K0,default=1"`
	}{})
	reg([]field{{"nbool", "def", "a"}}, struct {
		F0 NBool `config:"K0,default=a"`
	}{})
	reg([]field{{"nbool", "def", "bad"}}, struct {
		F0 NBool `config:"K0,default=bad"`
	}{})
	reg([]field{{"nbool", "def", "a=1"}}, struct {
		F0 NBool `config:"K0,default=a=1"`
	}{})
	reg([]field{{"int", "none", ""}}, struct {
		F0 int 
	}{})
	reg([]field{{"int", "plain", ""}}, struct {
		F0 int `config:"K0"`
	}{})
	reg([]field{{"int", "bogus", ""}}, struct {
		F0 int `config:"K0,bogus=1"`
	}{})
	reg([]field{{"int", "late", ""}}, struct {
		F0 int `config:"K0,default=1,required"`
	}{})
	reg([]field{{"int", "def", ""}}, struct {
		F0 int `config:"K0,default="`
	}{})
	reg([]field{{"int", "def", "1"}}, struct {
		F0 int `config:"K0,default=1"`
	}{})
	reg([]field{{"int", "def", "a"}}, struct {
		F0 int `config:"K0,default=a"`
	}{})
	reg([]field{{"int", "def", "bad"}}, struct {
		F0 int `config:"K0,default=bad"`
	}{})
	reg([]field{{"int", "def", "a=1"}}, struct {
		F0 int `config:"K0,default=a=1"`
	}{})
	reg([]field{{"nint", "none", ""}}, struct {
		F0 NInt 
	}{})
	reg([]field{{"nint", "plain", ""}}, struct {
		F0 NInt `config:"K0"`
	}{})
	reg([]field{{"nint", "bogus", ""}}, struct {
		F0 NInt `config:"K0,bogus=1"`
	}{})
	reg([]field{{"nint", "late", ""}}, struct {
		F0 NInt `config:"K0,default=1,required"`
	}{})
	reg([]field{{"nint", "def", ""}}, struct {
		F0 NInt `config:"K0,default="`
	}{})
	reg([]field{{"nint", "def", "1"}}, struct {
		F0 NInt `config:"K0,default=1"`
	}{})
	reg([]field{{"nint", "def", "a"}}, struct {
		F0 NInt `config:"K0,default=a"`
	}{})
	reg([]field{{"nint", "def", "bad"}}, struct {
		F0 NInt `config:"K0,default=bad"`
	}{})
	reg([]field{{"nint", "def", "a=1"}}, struct {
		F0 NInt `config:"K0,default=a=1"`
	}{})
	reg([]field{{"string", "none", ""}}, struct {
		F0 string 
	}{})
	reg([]field{{"string", "plain", ""}}, struct {
		F0 string `config:"K0"`
	}{})
	reg([]field{{"string", "bogus", ""}}, struct {
		F0 string `config:"K0,bogus=1"`
	}{})
	reg([]field{{"string", "late", ""}}, struct {
		F0 string `config:"K0,default=1,required"`
	}{})
	reg([]field{{"string", "def", ""}}, struct {
		F0 string `config:"K0,default="`
	}{})
	reg([]field{{"string", "def", "1"}}, struct {
		F0 string `config:"K0,default=1"`
	}{})
	reg([]field{{"string", "def", "a"}}, struct {
		F0 string `config:"K0,default=a"`
	}{})
	reg([]field{{"string", "def", "bad"}}, struct {
		F0 string `config:"K0,default=bad"`
	}{})
	reg([]field{{"string", "def", "a=1"}}, struct {
		F0 string `config:"K0,default=a=1"`
	}{})
	reg([]field{{"nstring", "none", ""}}, struct {
		F0 NString 
	}{})
	reg([]field{{"nstring", "plain", ""}}, struct {
		F0 NString `config:"K0"`
	}{})
	reg([]field{{"nstring", "bogus", ""}}, struct {
		F0 NString `config:"K0,bogus=1"`
	}{})
	reg([]field{{"nstring", "late", ""}}, struct {
		F0 NString `config:"K0,default=1,required"`
	}{})
	reg([]field{{"nstring", "def", ""}}, struct {
		F0 NString `config:"K0,default="`
	}{})
	reg([]field{{"nstring", "def", "1"}}, struct {
		F0 NString `config:"K0,default=1"`
	}{})
	reg([]field{{"nstring", "def", "a"}}, struct {
		F0 NString `config:"K0,default=a"`
	}{})
	reg([]field{{"nstring", "def", "bad"}}, struct {
		F0 NString `config:"K0,default=bad"`
	}{})
	reg([]field{{"nstring", "def", "a=1"}}, struct {
		F0 NString `config:"K0,default=a=1"`
	}{})
	reg([]field{{"text", "none", ""}}, struct {
		F0 Text 
	}{})
	reg([]field{{"text", "plain", ""}}, struct {
		F0 Text `config:"K0"`
	}{})
	reg([]field{{"text", "bogus", ""}}, struct {
		F0 Text `config:"K0,bogus=1"`
	}{})
	reg([]field{{"text", "late", ""}}, struct {
		F0 Text `config:"K0,default=1,required"`
	}{})
	reg([]field{{"text", "def", ""}}, struct {
		F0 Text `config:"K0,default="`
	}{})
	reg([]field{{"text", "def", "1"}}, struct {
		F0 Text `config:"K0,default=1"`
	}{})
	reg([]field{{"text", "def", "a"}}, struct {
		F0 Text `config:"K0,default=a"`
	}{})
	reg([]field{{"text", "def", "bad"}}, struct {
		F0 Text `config:"K0,default=bad"`
	}{})
	reg([]field{{"text", "def", "a=1"}}, struct {
		F0 Text `config:"K0,default=a=1"`
	}{})
	reg([]field{{"json", "none", ""}}, struct {
		F0 JSONT 
	}{})
	reg([]field{{"json", "plain", ""}}, struct {
		F0 JSONT `config:"K0"`
	}{})
	reg([]field{{"json", "bogus", ""}}, struct {
		F0 JSONT `config:"K0,bogus=1"`
	}{})
	reg([]field{{"json", "late", ""}}, struct {
		F0 JSONT `config:"K0,default=1,required"`
	}{})
	reg([]field{{"json", "def", ""}}, struct {
		F0 JSONT `config:"K0,default="`
	}{})
	reg([]field{{"json", "def", "1"}}, struct {
		F0 JSONT `config:"K0,default=1"`
	}{})
	reg([]field{{"json", "def", "a"}}, struct {
		F0 JSONT `config:"K0,default=a"`
	}{})
	reg([]field{{"json", "def", "bad"}}, struct {
		F0 JSONT `config:"K0,default=bad"`
	}{})
	reg([]field{{"json", "def", "a=1"}}, struct {
		F0 JSONT `config:"K0,default=a=1"`
	}{})
	reg([]field{{"own", "none", ""}}, struct {
		F0 Own 
	}{})
	reg([]field{{"own", "plain", ""}}, struct {
		F0 Own `config:"K0"`
	}{})
	reg([]field{{"own", "bogus", ""}}, struct {
		F0 Own `config:"K0,bogus=1"`
	}{})
	reg([]field{{"own", "late", ""}}, struct {
		F0 Own `config:"K0,default=1,required"`
	}{})
	reg([]field{{"own", "def", ""}}, struct {
		F0 Own `config:"K0,default="`
	}{})
	reg([]field{{"own", "def", "1"}}, struct {
		F0 Own `config:"K0,default=1"`
	}{})
	reg([]field{{"own", "def", "a"}}, struct {
		F0 Own `config:"K0,default=a"`
	}{})
	reg([]field{{"own", "def", "bad"}}, struct {
		F0 Own `config:"K0,default=bad"`
	}{})
	reg([]field{{"own", "def", "a=1"}}, struct {
		F0 Own `config:"K0,default=a=1"`
	}{})
	reg([]field{{"strings", "none", ""}}, struct {
		F0 []string 
	}{})
	reg([]field{{"strings", "plain", ""}}, struct {
		F0 []string `config:"K0"`
	}{})
	reg([]field{{"strings", "bogus", ""}}, struct {
		F0 []string `config:"K0,bogus=1"`
	}{})
	reg([]field{{"strings", "late", ""}}, struct {
		F0 []string `config:"K0,default=1,required"`
	}{})
	reg([]field{{"strings", "def", ""}}, struct {
		F0 []string `config:"K0,default="`
	}{})
	reg([]field{{"strings", "def", "1"}}, struct {
		F0 []string `config:"K0,default=1"`
	}{})
	reg([]field{{"strings", "def", "a"}}, struct {
		F0 []string `config:"K0,default=a"`
	}{})
	reg([]field{{"strings", "def", "bad"}}, struct {
		F0 []string `config:"K0,default=bad"`
	}{})
	reg([]field{{"strings", "def", "a=1"}}, struct {
		F0 []string `config:"K0,default=a=1"`
	}{})
	reg([]field{{"ints", "none", ""}}, struct {
		F0 []int 
	}{})
	reg([]field{{"ints", "plain", ""}}, struct {
		F0 []int `config:"K0"`
	}{})
	reg([]field{{"ints", "bogus", ""}}, struct {
		F0 []int `config:"K0,bogus=1"`
	}{})
	reg([]field{{"ints", "late", ""}}, struct {
		F0 []int `config:"K0,default=1,required"`
	}{})
	reg([]field{{"ints", "def", ""}}, struct {
		F0 []int `config:"K0,default="`
	}{})
	reg([]field{{"ints", "def", "1"}}, struct {
		F0 []int `config:"K0,default=1"`
	}{})
	reg([]field{{"ints", "def", "a"}}, struct {
		F0 []int `config:"K0,default=a"`
	}{})
	reg([]field{{"ints", "def", "bad"}}, struct {
		F0 []int `config:"K0,default=bad"`
	}{})
	reg([]field{{"ints", "def", "a=1"}}, struct {
		F0 []int `config:"K0,default=a=1"`
	}{})
	reg([]field{{"bools", "none", ""}}, struct {
		F0 []bool 
	}{})
	reg([]field{{"bools", "plain", ""}}, struct {
		F0 []bool `config:"K0"`
	}{})
	reg([]field{{"bools", "bogus", ""}}, struct {
		F0 []bool `config:"K0,bogus=1"`
	}{})
	reg([]field{{"bools", "late", ""}}, struct {
		F0 []bool `config:"K0,default=1,required"`
	}{})
	reg([]field{{"bools", "def", ""}}, struct {
		F0 []bool `config:"K0,default="`
	}{})
	reg([]field{{"bools", "def", "1"}}, struct {
		F0 []bool `config:"K0,default=1"`
	}{})
	reg([]field{{"bools", "def", "a"}}, struct {
		F0 []bool `config:"K0,default=a"`
	}{})
	reg([]field{{"bools", "def", "bad"}}, struct {
		F0 []bool `config:"K0,default=bad"`
	}{})
	reg([]field{{"bools", "def", "a=1"}}, struct {
		F0 []bool `config:"K0,default=a=1"`
	}{})
	reg([]field{{"nints", "none", ""}}, struct {
		F0 []NInt 
	}{})
	reg([]field{{"nints", "plain", ""}}, struct {
		F0 []NInt `config:"K0"`
	}{})
	reg([]field{{"nints", "bogus", ""}}, struct {
		F0 []NInt `config:"K0,bogus=1"`
	}{})
	reg([]field{{"nints", "late", ""}}, struct {
		F0 []NInt `config:"K0,default=1,required"`
	}{})
	reg([]field{{"nints", "def", ""}}, struct {
		F0 []NInt `config:"K0,default="`
	}{})
	reg([]field{{"nints", "def", "1"}}, struct {
		F0 []NInt `config:"K0,default=1"`
	}{})
	reg([]field{{"nints", "def", "a"}}, struct {
		F0 []NInt `config:"K0,default=a"`
	}{})
	reg([]field{{"nints", "def", "bad"}}, struct {
		F0 []NInt `config:"K0,default=bad"`
	}{})
	reg([]field{{"nints", "def", "a=1"}}, struct {
		F0 []NInt `config:"K0,default=a=1"`
	}{})
	reg([]field{{"texts", "none", ""}}, struct {
		F0 []Text 
	}{})
	reg([]field{{"texts", "plain", ""}}, struct {
		F0 []Text `config:"K0"`
	}{})
	reg([]field{{"texts", "bogus", ""}}, struct {
		F0 []Text `config:"K0,bogus=1"`
	}{})
	reg([]field{{"texts", "late", ""}}, struct {
		F0 []Text `config:"K0,default=1,required"`
	}{})
	reg([]field{{"texts", "def", ""}}, struct {
		F0 []Text `config:"K0,default="`
	}{})
	reg([]field{{"texts", "def", "1"}}, struct {
		F0 []Text `config:"K0,default=1"`
	}{})
	reg([]field{{"texts", "def", "a"}}, struct {
		F0 []Text `config:"K0,default=a"`
	}{})
	reg([]field{{"texts", "def", "bad"}}, struct {
		F0 []Text `config:"K0,default=bad"`
	}{})
	reg([]field{{"texts", "def", "a=1"}}, struct {
		F0 []Text `config:"K0,default=a=1"`
	}{})
	reg([]field{{"mstring", "none", ""}}, struct {
		F0 map[string]string 
	}{})
	reg([]field{{"mstring", "plain", ""}}, struct {
		F0 map[string]string `config:"K0"`
	}{})
	reg([]field{{"mstring", "bogus", ""}}, struct {
		F0 map[string]string `config:"K0,bogus=1"`
	}{})
	reg([]field{{"mstring", "late", ""}}, struct {
		F0 map[string]string `config:"K0,default=1,required"`
	}{})
	reg([]field{{"mstring", "def", ""}}, struct {
		F0 map[string]string `config:"K0,default="`
	}{})
	reg([]field{{"mstring", "def", "1"}}, struct {
		F0 map[string]string `config:"K0,default=1"`
	}{})
	reg([]field{{"mstring", "def", "a"}}, struct {
		F0 map[string]string `config:"K0,default=a"`
	}{})
	reg([]field{{"mstring", "def", "bad"}}, struct {
		F0 map[string]string `config:"K0,default=bad"`
	}{})
	reg([]field{{"mstring", "def", "a=1"}}, struct {
		F0 map[string]string `config:"K0,default=a=1"`
	}{})
	reg([]field{{"mint", "none", ""}}, struct {
		F0 map[string]int 
	}{})
	reg([]field{{"mint", "plain", ""}}, struct {
		F0 map[string]int `config:"K0"`
	}{})
	reg([]field{{"mint", "bogus", ""}}, struct {
		F0 map[string]int `config:"K0,bogus=1"`
	}{})
	reg([]field{{"mint", "late", ""}}, struct {
		F0 map[string]int `config:"K0,default=1,required"`
	}{})
	reg([]field{{"mint", "def", ""}}, struct {
		F0 map[string]int `config:"K0,default="`
	}{})
	reg([]field{{"mint", "def", "1"}}, struct {
		F0 map[string]int `config:"K0,default=1"`
	}{})
	reg([]field{{"mint", "def", "a"}}, struct {
		F0 map[string]int `config:"K0,default=a"`
	}{})
	reg([]field{{"mint", "def", "bad"}}, struct {
		F0 map[string]int `config:"K0,default=bad"`
	}{})
	reg([]field{{"mint", "def", "a=1"}}, struct {
		F0 map[string]int `config:"K0,default=a=1"`
	}{})
	reg([]field{{"mbool", "none", ""}}, struct {
		F0 map[string]bool 
	}{})
	reg([]field{{"mbool", "plain", ""}}, struct {
		F0 map[string]bool `config:"K0"`
	}{})
	reg([]field{{"mbool", "bogus", ""}}, struct {
		F0 map[string]bool `config:"K0,bogus=1"`
	}{})
	reg([]field{{"mbool", "late", ""}}, struct {
		F0 map[string]bool `config:"K0,default=1,required"`
	}{})
	reg([]field{{"mbool", "def", ""}}, struct {
		F0 map[string]bool `config:"K0,default="`
	}{})
	reg([]field{{"mbool", "def", "1"}}, struct {
		F0 map[string]bool `config:"K0,default=1"`
	}{})
	reg([]field{{"mbool", "def", "a"}}, struct {
		F0 map[string]bool `config:"K0,default=a"`
	}{})
	reg([]field{{"mbool", "def", "bad"}}, struct {
		F0 map[string]bool `config:"K0,default=bad"`
	}{})
	reg([]field{{"mbool", "def", "a=1"}}, struct {
		F0 map[string]bool `config:"K0,default=a=1"`
	}{})
	reg([]field{{"mnkey", "none", ""}}, struct {
		F0 map[NString]string 
	}{})
	reg([]field{{"mnkey", "plain", ""}}, struct {
		F0 map[NString]string `config:"K0"`
	}{})
	reg([]field{{"mnkey", "bogus", ""}}, struct {
		F0 map[NString]string `config:"K0,bogus=1"`
	}{})
	reg([]field{{"mnkey", "late", ""}}, struct {
		F0 map[NString]string `config:"K0,default=1,required"`
	}{})
	reg([]field{{"mnkey", "def", ""}}, struct {
		F0 map[NString]string `config:"K0,default="`
	}{})
	reg([]field{{"mnkey", "def", "1"}}, struct {
		F0 map[NString]string `config:"K0,default=1"`
	}{})
	reg([]field{{"mnkey", "def", "a"}}, struct {
		F0 map[NString]string `config:"K0,default=a"`
	}{})
	reg([]field{{"mnkey", "def", "bad"}}, struct {
		F0 map[NString]string `config:"K0,default=bad"`
	}{})
	reg([]field{{"mnkey", "def", "a=1"}}, struct {
		F0 map[NString]string `config:"K0,default=a=1"`
	}{})
	reg([]field{{"float", "none", ""}}, struct {
		F0 float64 
	}{})
	reg([]field{{"float", "plain", ""}}, struct {
		F0 float64 `config:"K0"`
	}{})
	reg([]field{{"float", "bogus", ""}}, struct {
		F0 float64 `config:"K0,bogus=1"`
	}{})
	reg([]field{{"float", "late", ""}}, struct {
		F0 float64 `config:"K0,default=1,required"`
	}{})
	reg([]field{{"float", "def", ""}}, struct {
		F0 float64 `config:"K0,default="`
	}{})
	reg([]field{{"float", "def", "1"}}, struct {
		F0 float64 `config:"K0,default=1"`
	}{})
	reg([]field{{"float", "def", "a"}}, struct {
		F0 float64 `config:"K0,default=a"`
	}{})
	reg([]field{{"float", "def", "bad"}}, struct {
		F0 float64 `config:"K0,default=bad"`
	}{})
	reg([]field{{"float", "def", "a=1"}}, struct {
		F0 float64 `config:"K0,default=a=1"`
	}{})
	reg([]field{{"uint", "none", ""}}, struct {
		F0 uint 
	}{})
	reg([]field{{"uint", "plain", ""}}, struct {
		F0 uint `config:"K0"`
	}{})
	reg([]field{{"uint", "bogus", ""}}, struct {
		F0 uint `config:"K0,bogus=1"`
	}{})
	reg([]field{{"uint", "late", ""}}, struct {
		F0 uint `config:"K0,default=1,required"`
	}{})
	reg([]field{{"uint", "def", ""}}, struct {
		F0 uint `config:"K0,default="`
	}{})
	reg([]field{{"uint", "def", "1"}}, struct {
		F0 uint `config:"K0,default=1"`
	}{})
	reg([]field{{"uint", "def", "a"}}, struct {
		F0 uint `config:"K0,default=a"`
	}{})
	reg([]field{{"uint", "def", "bad"}}, struct {
		F0 uint `config:"K0,default=bad"`
	}{})
	reg([]field{{"uint", "def", "a=1"}}, struct {
		F0 uint `config:"K0,default=a=1"`
	}{})
	reg([]field{{"int64", "none", ""}}, struct {
		F0 int64 
	}{})
	reg([]field{{"int64", "plain", ""}}, struct {
		F0 int64 `config:"K0"`
	}{})
	reg([]field{{"int64", "bogus", ""}}, struct {
		F0 int64 `config:"K0,bogus=1"`
	}{})
	reg([]field{{"int64", "late", ""}}, struct {
		F0 int64 `config:"K0,default=1,required"`
	}{})
	reg([]field{{"int64", "def", ""}}, struct {
		F0 int64 `config:"K0,default="`
	}{})
	reg([]field{{"int64", "def", "1"}}, struct {
		F0 int64 `config:"K0,default=1"`
	}{})
	reg([]field{{"int64", "def", "a"}}, struct {
		F0 int64 `config:"K0,default=a"`
	}{})
	reg([]field{{"int64", "def", "bad"}}, struct {
		F0 int64 `config:"K0,default=bad"`
	}{})
	reg([]field{{"int64", "def", "a=1"}}, struct {
		F0 int64 `config:"K0,default=a=1"`
	}{})
	reg([]field{{"struct", "none", ""}}, struct {
		F0 Inner 
	}{})
	reg([]field{{"struct", "plain", ""}}, struct {
		F0 Inner `config:"K0"`
	}{})
	reg([]field{{"struct", "bogus", ""}}, struct {
		F0 Inner `config:"K0,bogus=1"`
	}{})
	reg([]field{{"struct", "late", ""}}, struct {
		F0 Inner `config:"K0,default=1,required"`
	}{})
	reg([]field{{"struct", "def", ""}}, struct {
		F0 Inner `config:"K0,default="`
	}{})
	reg([]field{{"struct", "def", "1"}}, struct {
		F0 Inner `config:"K0,default=1"`
	}{})
	reg([]field{{"struct", "def", "a"}}, struct {
		F0 Inner `config:"K0,default=a"`
	}{})
	reg([]field{{"struct", "def", "bad"}}, struct {
		F0 Inner `config:"K0,default=bad"`
	}{})
	reg([]field{{"struct", "def", "a=1"}}, struct {
		F0 Inner `config:"K0,default=a=1"`
	}{})
	reg([]field{{"ptr", "none", ""}}, struct {
		F0 *int 
	}{})
	reg([]field{{"ptr", "plain", ""}}, struct {
		F0 *int `config:"K0"`
	}{})
	reg([]field{{"ptr", "bogus", ""}}, struct {
		F0 *int `config:"K0,bogus=1"`
	}{})
	reg([]field{{"ptr", "late", ""}}, struct {
		F0 *int `config:"K0,default=1,required"`
	}{})
	reg([]field{{"ptr", "def", ""}}, struct {
		F0 *int `config:"K0,default="`
	}{})
	reg([]field{{"ptr", "def", "1"}}, struct {
		F0 *int `config:"K0,default=1"`
	}{})
	reg([]field{{"ptr", "def", "a"}}, struct {
		F0 *int `config:"K0,default=a"`
	}{})
	reg([]field{{"ptr", "def", "bad"}}, struct {
		F0 *int `config:"K0,default=bad"`
	}{})
	reg([]field{{"ptr", "def", "a=1"}}, struct {
		F0 *int `config:"K0,default=a=1"`
	}{})
	reg([]field{{"chan", "none", ""}}, struct {
		F0 chan int 
	}{})
	reg([]field{{"chan", "plain", ""}}, struct {
		F0 chan int `config:"K0"`
	}{})
	reg([]field{{"chan", "bogus", ""}}, struct {
		F0 chan int `config:"K0,bogus=1"`
	}{})
	reg([]field{{"chan", "late", ""}}, struct {
		F0 chan int `config:"K0,default=1,required"`
	}{})
	reg([]field{{"chan", "def", ""}}, struct {
		F0 chan int `config:"K0,default="`
	}{})
	reg([]field{{"chan", "def", "1"}}, struct {
		F0 chan int `config:"K0,default=1"`
	}{})
	reg([]field{{"chan", "def", "a"}}, struct {
		F0 chan int `config:"K0,default=a"`
	}{})
	reg([]field{{"chan", "def", "bad"}}, struct {
		F0 chan int `config:"K0,default=bad"`
	}{})
	reg([]field{{"chan", "def", "a=1"}}, struct {
		F0 chan int `config:"K0,default=a=1"`
	}{})
	reg([]field{{"array", "none", ""}}, struct {
		F0 [2]int 
	}{})
	reg([]field{{"array", "plain", ""}}, struct {
		F0 [2]int `config:"K0"`
	}{})
	reg([]field{{"array", "bogus", ""}}, struct {
		F0 [2]int `config:"K0,bogus=1"`
	}{})
	reg([]field{{"array", "late", ""}}, struct {
		F0 [2]int `config:"K0,default=1,required"`
	}{})
	reg([]field{{"array", "def", ""}}, struct {
		F0 [2]int `config:"K0,default="`
	}{})
	reg([]field{{"array", "def", "1"}}, struct {
		F0 [2]int `config:"K0,default=1"`
	}{})
	reg([]field{{"array", "def", "a"}}, struct {
		F0 [2]int `config:"K0,default=a"`
	}{})
	reg([]field{{"array", "def", "bad"}}, struct {
		F0 [2]int `config:"K0,default=bad"`
	}{})
	reg([]field{{"array", "def", "a=1"}}, struct {
		F0 [2]int `config:"K0,default=a=1"`
	}{})
	reg([]field{{"iface", "none", ""}}, struct {
		F0 any 
	}{})
	reg([]field{{"iface", "plain", ""}}, struct {
		F0 any `config:"K0"`
	}{})
	reg([]field{{"iface", "bogus", ""}}, struct {
		F0 any `config:"K0,bogus=1"`
	}{})
	reg([]field{{"iface", "late", ""}}, struct {
		F0 any `config:"K0,default=1,required"`
	}{})
	reg([]field{{"iface", "def", ""}}, struct {
		F0 any `config:"K0,default="`
	}{})
	reg([]field{{"iface", "def", "1"}}, struct {
		F0 any `config:"K0,default=1"`
	}{})
	reg([]field{{"iface", "def", "a"}}, struct {
		F0 any `config:"K0,default=a"`
	}{})
	reg([]field{{"iface", "def", "bad"}}, struct {
		F0 any `config:"K0,default=bad"`
	}{})
	reg([]field{{"iface", "def", "a=1"}}, struct {
		F0 any `config:"K0,default=a=1"`
	}{})
	reg([]field{{"floats", "none", ""}}, struct {
		F0 []float64 
	}{})
	reg([]field{{"floats", "plain", ""}}, struct {
		F0 []float64 `config:"K0"`
	}{})
	reg([]field{{"floats", "bogus", ""}}, struct {
		F0 []float64 `config:"K0,bogus=1"`
	}{})
	reg([]field{{"floats", "late", ""}}, struct {
		F0 []float64 `config:"K0,default=1,required"`
	}{})
	reg([]field{{"floats", "def", ""}}, struct {
		F0 []float64 `config:"K0,default="`
	}{})
	reg([]field{{"floats", "def", "1"}}, struct {
		F0 []float64 `config:"K0,default=1"`
	}{})
	reg([]field{{"floats", "def", "a"}}, struct {
		F0 []float64 `config:"K0,default=a"`
	}{})
	reg([]field{{"floats", "def", "bad"}}, struct {
		F0 []float64 `config:"K0,default=bad"`
	}{})
	reg([]field{{"floats", "def", "a=1"}}, struct {
		F0 []float64 `config:"K0,default=a=1"`
	}{})
	reg([]field{{"mfloat", "none", ""}}, struct {
		F0 map[string]float64 
	}{})
	reg([]field{{"mfloat", "plain", ""}}, struct {
		F0 map[string]float64 `config:"K0"`
	}{})
	reg([]field{{"mfloat", "bogus", ""}}, struct {
		F0 map[string]float64 `config:"K0,bogus=1"`
	}{})
	reg([]field{{"mfloat", "late", ""}}, struct {
		F0 map[string]float64 `config:"K0,default=1,required"`
	}{})
	reg([]field{{"mfloat", "def", ""}}, struct {
		F0 map[string]float64 `config:"K0,default="`
	}{})
	reg([]field{{"mfloat", "def", "1"}}, struct {
		F0 map[string]float64 `config:"K0,default=1"`
	}{})
	reg([]field{{"mfloat", "def", "a"}}, struct {
		F0 map[string]float64 `config:"K0,default=a"`
	}{})
	reg([]field{{"mfloat", "def", "bad"}}, struct {
		F0 map[string]float64 `config:"K0,default=bad"`
	}{})
	reg([]field{{"mfloat", "def", "a=1"}}, struct {
		F0 map[string]float64 `config:"K0,default=a=1"`
	}{})
	reg([]field{{"mikey", "none", ""}}, struct {
		F0 map[int]string 
	}{})
	reg([]field{{"mikey", "plain", ""}}, struct {
		F0 map[int]string `config:"K0"`
	}{})
	reg([]field{{"mikey", "bogus", ""}}, struct {
		F0 map[int]string `config:"K0,bogus=1"`
	}{})
	reg([]field{{"mikey", "late", ""}}, struct {
		F0 map[int]string `config:"K0,default=1,required"`
	}{})
	reg([]field{{"mikey", "def", ""}}, struct {
		F0 map[int]string `config:"K0,default="`
	}{})
	reg([]field{{"mikey", "def", "1"}}, struct {
		F0 map[int]string `config:"K0,default=1"`
	}{})
	reg([]field{{"mikey", "def", "a"}}, struct {
		F0 map[int]string `config:"K0,default=a"`
	}{})
	reg([]field{{"mikey", "def", "bad"}}, struct {
		F0 map[int]string `config:"K0,default=bad"`
	}{})
	reg([]field{{"mikey", "def", "a=1"}}, struct {
		F0 map[int]string `config:"K0,default=a=1"`
	}{})
	reg([]field{{"hidden", "plain", ""}}, struct {
		f0 int `config:"K0"`
	}{})
	reg([]field{{"hidden", "bogus", ""}}, struct {
		f0 int `config:"K0,bogus=1"`
	}{})
	reg([]field{{"hidden", "late", ""}}, struct {
		f0 int `config:"K0,default=1,required"`
	}{})
	reg([]field{{"hidden", "def", ""}}, struct {
		f0 int `config:"K0,default="`
	}{})
	reg([]field{{"hidden", "def", "1"}}, struct {
		f0 int `config:"K0,default=1"`
	}{})
	reg([]field{{"hidden", "def", "a"}}, struct {
		f0 int `config:"K0,default=a"`
	}{})
	reg([]field{{"hidden", "def", "bad"}}, struct {
		f0 int `config:"K0,default=bad"`
	}{})
	reg([]field{{"hidden", "def", "a=1"}}, struct {
		f0 int `config:"K0,default=a=1"`
	}{})
	reg([]field{{"nints", "none", ""}, {"nint", "none", ""}, {"text", "def", "1"}, {"texts", "def", ""}}, struct {
		F0 []NInt 
		F1 NInt 
		F2 Text `config:"K2,default=1"`
		F3 []Text `config:"K3,default="`
	}{})
	reg([]field{{"nints", "plain", ""}, {"string", "plain", ""}, {"strings", "def", "1"}, {"text", "def", "1"}, {"mint", "def", "a=1"}, {"bools", "plain", ""}}, struct {
		F0 []NInt `config:"K0"`
		F1 string `config:"K1"`
		F2 []string `config:"K2,default=1"`
		F3 Text `config:"K3,default=1"`
		F4 map[string]int `config:"K4,default=a=1"`
		F5 []bool `config:"K5"`
	}{})
	reg([]field{{"strings", "plain", ""}, {"strings", "none", ""}, {"texts", "plain", ""}}, struct {
		F0 []string `config:"K0"`
		F1 []string 
		F2 []Text `config:"K2"`
	}{})
	reg([]field{{"texts", "def", "1"}, {"ints", "plain", ""}, {"mstring", "none", ""}}, struct {
		F0 []Text `config:"K0,default=1"`
		F1 []int `config:"K1"`
		F2 map[string]string 
	}{})
	reg([]field{{"int", "def", "1"}, {"floats", "def", "bad"}, {"mstring", "def", "a=1"}, {"strings", "plain", ""}}, struct {
		F0 int `config:"K0,default=1"`
		F1 []float64 `config:"K1,default=bad"`
		F2 map[string]string `config:"K2,default=a=1"`
		F3 []string `config:"K3"`
	}{})
	reg([]field{{"mint", "def", "a=1"}, {"texts", "plain", ""}, {"bools", "def", "1"}, {"json", "none", ""}, {"nstring", "none", ""}}, struct {
		F0 map[string]int `config:"K0,default=a=1"`
		F1 []Text `config:"K1"`
		F2 []bool `config:"K2,default=1"`
		F3 JSONT 
		F4 NString 
	}{})
	reg([]field{{"bools", "plain", ""}, {"mbool", "def", "a=1"}, {"mnkey", "def", "a=1"}}, struct {
		F0 []bool `config:"K0"`
		F1 map[string]bool `config:"K1,default=a=1"`
		F2 map[NString]string `config:"K2,default=a=1"`
	}{})
	reg([]field{{"int", "late", ""}, {"ints", "none", ""}, {"string", "plain", ""}, {"int", "def", "1"}, {"bools", "def", "1"}}, struct {
		F0 int `config:"K0,default=1,required"`
		F1 []int 
		F2 string `config:"K2"`
		F3 int `config:"K3,default=1"`
		F4 []bool `config:"K4,default=1"`
	}{})
	reg([]field{{"mstring", "plain", ""}, {"nint", "def", "1"}, {"mbool", "def", "a=1"}, {"bool", "plain", ""}, {"mfloat", "plain", ""}}, struct {
		F0 map[string]string `config:"K0"`
		F1 NInt `config:"K1,default=1"`
		F2 map[string]bool `config:"K2,default=a=1"`
		F3 bool `config:"K3"`
		F4 map[string]float64 `config:"K4"`
	}{})
	reg([]field{{"nstring", "plain", ""}, {"mbool", "plain", ""}, {"text", "def", "1"}, {"bool", "late", ""}, {"text", "plain", ""}, {"bools", "plain", ""}}, struct {
		F0 NString `config:"K0"`
		F1 map[string]bool `config:"K1"`
		F2 Text `config:"K2,default=1"`
		F3 bool `config:"K3,default=1,required"`
		F4 Text `config:"K4"`
		F5 []bool `config:"K5"`
	}{})
	reg([]field{{"json", "plain", ""}, {"bool", "def", "1"}}, struct {
		F0 JSONT `config:"K0"`
		F1 bool `config:"K1,default=1"`
	}{})
	reg([]field{{"nint", "def", "1"}, {"ints", "def", "1"}}, struct {
		F0 NInt `config:"K0,default=1"`
		F1 []int `config:"K1,default=1"`
	}{})
	reg([]field{{"nstring", "bogus", ""}, {"mstring", "plain", ""}}, struct {
		F0 NString `config:"K0,bogus=1"`
		F1 map[string]string `config:"K1"`
	}{})
	reg([]field{{"mint", "plain", ""}, {"mnkey", "none", ""}, {"nint", "plain", ""}, {"text", "plain", ""}, {"text", "plain", ""}, {"ints", "def", "1"}}, struct {
		F0 map[string]int `config:"K0"`
		F1 map[NString]string 
		F2 NInt `config:"K2"`
		F3 Text `config:"K3"`
		F4 Text `config:"K4"`
		F5 []int `config:"K5,default=1"`
	}{})
	reg([]field{{"mbool", "def", "a=1"}, {"bool", "plain", ""}, {"string", "def", "1"}, {"ints", "def", "1"}}, struct {
		F0 map[string]bool `config:"K0,default=a=1"`
		F1 bool `config:"K1"`
		F2 string `config:"K2,default=1"`
		F3 []int `config:"K3,default=1"`
	}{})
	reg([]field{{"nbool", "plain", ""}, {"nint", "def", "1"}}, struct {
		F0 NBool `config:"K0"`
		F1 NInt `config:"K1,default=1"`
	}{})
	reg([]field{{"mbool", "plain", ""}, {"mstring", "def", "a=1"}}, struct {
		F0 map[string]bool `config:"K0"`
		F1 map[string]string `config:"K1,default=a=1"`
	}{})
	reg([]field{{"own", "plain", ""}, {"string", "def", "1"}, {"texts", "def", "1"}, {"string", "def", "1"}, {"mstring", "none", ""}, {"mint", "def", "a=1"}}, struct {
		F0 Own `config:"K0"`
		F1 string `config:"K1,default=1"`
		F2 []Text `config:"K2,default=1"`
		F3 string `config:"K3,default=1"`
		F4 map[string]string 
		F5 map[string]int `config:"K5,default=a=1"`
	}{})
	reg([]field{{"nints", "plain", ""}, {"int", "none", ""}, {"mstring", "none", ""}, {"mbool", "def", "a=1"}, {"json", "bogus", ""}}, struct {
		F0 []NInt `config:"K0"`
		F1 int 
		F2 map[string]string 
		F3 map[string]bool `config:"K3,default=a=1"`
		F4 JSONT `config:"K4,bogus=1"`
	}{})
	reg([]field{{"nbool", "plain", ""}, {"string", "def", "1"}}, struct {
		F0 NBool `config:"K0"`
		F1 string `config:"K1,default=1"`
	}{})
	reg([]field{{"mint", "none", ""}, {"nstring", "none", ""}, {"bool", "plain", ""}, {"json", "none", ""}, {"ints", "late", ""}, {"own", "none", ""}}, struct {
		F0 map[string]int 
		F1 NString 
		F2 bool `config:"K2"`
		F3 JSONT 
		F4 []int `config:"K4,default=1,required"`
		F5 Own 
	}{})
	reg([]field{{"nint", "plain", ""}, {"text", "def", "1"}, {"mstring", "plain", ""}, {"bool", "bogus", ""}, {"mbool", "plain", ""}, {"json", "none", ""}}, struct {
		F0 NInt `config:"K0"`
		F1 Text `config:"K1,default=1"`
		F2 map[string]string `config:"K2"`
		F3 bool `config:"K3,bogus=1"`
		F4 map[string]bool `config:"K4"`
		F5 JSONT 
	}{})
	reg([]field{{"mnkey", "def", "a=1"}, {"json", "def", "1"}, {"nbool", "none", ""}, {"own", "none", ""}, {"nints", "def", "1"}}, struct {
		F0 map[NString]string `config:"K0,default=a=1"`
		F1 JSONT `config:"K1,default=1"`
		F2 NBool 
		F3 Own 
		F4 []NInt `config:"K4,default=1"`
	}{})
	reg([]field{{"nstring", "def", "1"}, {"mnkey", "none", ""}, {"strings", "plain", ""}, {"nints", "plain", ""}}, struct {
		F0 NString `config:"K0,default=1"`
		F1 map[NString]string 
		F2 []string `config:"K2"`
		F3 []NInt `config:"K3"`
	}{})
	reg([]field{{"json", "none", ""}, {"int", "def", "1"}, {"json", "def", "1"}, {"nints", "def", "1"}, {"string", "def", "1"}, {"mbool", "def", "a=1"}}, struct {
		F0 JSONT 
		F1 int `config:"K1,default=1"`
		F2 JSONT `config:"K2,default=1"`
		F3 []NInt `config:"K3,default=1"`
		F4 string `config:"K4,default=1"`
		F5 map[string]bool `config:"K5,default=a=1"`
	}{})
	reg([]field{{"json", "none", ""}, {"bools", "def", "1"}}, struct {
		F0 JSONT 
		F1 []bool `config:"K1,default=1"`
	}{})
	reg([]field{{"json", "none", ""}, {"int", "def", "1"}}, struct {
		F0 JSONT 
		F1 int `config:"K1,default=1"`
	}{})
	reg([]field{{"mint", "none", ""}, {"json", "plain", ""}, {"mstring", "def", "a=1"}, {"nbool", "def", "1"}, {"own", "def", "1"}, {"mint", "plain", ""}}, struct {
		F0 map[string]int 
		F1 JSONT `config:"K1"`
		F2 map[string]string `config:"K2,default=a=1"`
		F3 NBool `config:"K3,default=1"`
		F4 Own `config:"K4,default=1"`
		F5 map[string]int `config:"K5"`
	}{})
	reg([]field{{"mint", "def", "a=1"}, {"nint", "bogus", ""}}, struct {
		F0 map[string]int `config:"K0,default=a=1"`
		F1 NInt `config:"K1,bogus=1"`
	}{})
	reg([]field{{"mint", "def", ""}, {"mstring", "late", ""}, {"text", "none", ""}, {"mbool", "plain", ""}}, struct {
		F0 map[string]int `config:"K0,default="`
		F1 map[string]string `config:"K1,default=1,required"`
		F2 Text 
		F3 map[string]bool `config:"K3"`
	}{})
	reg([]field{{"mbool", "none", ""}, {"json", "def", "1"}, {"mint", "def", "a=1"}}, struct {
		F0 map[string]bool 
		F1 JSONT `config:"K1,default=1"`
		F2 map[string]int `config:"K2,default=a=1"`
	}{})
	reg([]field{{"ints", "plain", ""}, {"ints", "none", ""}, {"text", "def", "1"}, {"nints", "bogus", ""}, {"texts", "none", ""}}, struct {
		F0 []int `config:"K0"`
		F1 []int 
		F2 Text `config:"K2,default=1"`
		F3 []NInt `config:"K3,bogus=1"`
		F4 []Text 
	}{})
	reg([]field{{"strings", "plain", ""}, {"own", "plain", ""}, {"bools", "def", ""}, {"mnkey", "def", "a=1"}}, struct {
		F0 []string `config:"K0"`
		F1 Own `config:"K1"`
		F2 []bool `config:"K2,default="`
		F3 map[NString]string `config:"K3,default=a=1"`
	}{})
	reg([]field{{"string", "plain", ""}, {"mnkey", "def", "a=1"}, {"own", "plain", ""}, {"mnkey", "none", ""}, {"nstring", "def", "1"}}, struct {
		F0 string `config:"K0"`
		F1 map[NString]string `config:"K1,default=a=1"`
		F2 Own `config:"K2"`
		F3 map[NString]string 
		F4 NString `config:"K4,default=1"`
	}{})
	reg([]field{{"mstring", "def", "a=1"}, {"mnkey", "plain", ""}, {"text", "def", "1"}, {"text", "plain", ""}, {"mint", "plain", ""}}, struct {
		F0 map[string]string `config:"K0,default=a=1"`
		F1 map[NString]string `config:"K1"`
		F2 Text `config:"K2,default=1"`
		F3 Text `config:"K3"`
		F4 map[string]int `config:"K4"`
	}{})
	reg([]field{{"mbool", "plain", ""}, {"json", "def", "1"}, {"bool", "def", "bad"}}, struct {
		F0 map[string]bool `config:"K0"`
		F1 JSONT `config:"K1,default=1"`
		F2 bool `config:"K2,default=bad"`
	}{})
	reg([]field{{"nints", "def", "bad"}, {"nint", "plain", ""}, {"nint", "def", "1"}, {"bool", "plain", ""}, {"nbool", "plain", ""}}, struct {
		F0 []NInt `config:"K0,default=bad"`
		F1 NInt `config:"K1"`
		F2 NInt `config:"K2,default=1"`
		F3 bool `config:"K3"`
		F4 NBool `config:"K4"`
	}{})
	reg([]field{{"mbool", "def", "a=1"}, {"text", "plain", ""}, {"bool", "plain", ""}}, struct {
		F0 map[string]bool `config:"K0,default=a=1"`
		F1 Text `config:"K1"`
		F2 bool `config:"K2"`
	}{})
	reg([]field{{"ints", "plain", ""}, {"json", "none", ""}, {"strings", "plain", ""}, {"texts", "plain", ""}, {"bools", "none", ""}}, struct {
		F0 []int `config:"K0"`
		F1 JSONT 
		F2 []string `config:"K2"`
		F3 []Text `config:"K3"`
		F4 []bool 
	}{})
	reg([]field{{"bools", "plain", ""}, {"strings", "def", "1"}, {"strings", "plain", ""}, {"json", "plain", ""}}, struct {
		F0 []bool `config:"K0"`
		F1 []string `config:"K1,default=1"`
		F2 []string `config:"K2"`
		F3 JSONT `config:"K3"`
	}{})
	reg([]field{{"mint", "plain", ""}, {"nbool", "plain", ""}}, struct {
		F0 map[string]int `config:"K0"`
		F1 NBool `config:"K1"`
	}{})
	reg([]field{{"bool", "bogus", ""}, {"nbool", "def", "1"}, {"nstring", "plain", ""}, {"mbool", "none", ""}, {"nints", "plain", ""}}, struct {
		F0 bool `config:"K0,bogus=1"`
		F1 NBool `config:"K1,default=1"`
		F2 NString `config:"K2"`
		F3 map[string]bool 
		F4 []NInt `config:"K4"`
	}{})
	reg([]field{{"bool", "none", ""}, {"nint", "plain", ""}, {"strings", "def", "1"}, {"bools", "def", "1"}, {"mint", "def", "1"}}, struct {
		F0 bool 
		F1 NInt `config:"K1"`
		F2 []string `config:"K2,default=1"`
		F3 []bool `config:"K3,default=1"`
		F4 map[string]int `config:"K4,default=1"`
	}{})
	reg([]field{{"nbool", "none", ""}, {"int", "plain", ""}, {"ints", "def", "1"}, {"ints", "plain", ""}, {"int", "plain", ""}}, struct {
		F0 NBool 
		F1 int `config:"K1"`
		F2 []int `config:"K2,default=1"`
		F3 []int `config:"K3"`
		F4 int `config:"K4"`
	}{})
	reg([]field{{"mstring", "def", "a"}, {"string", "plain", ""}}, struct {
		F0 map[string]string `config:"K0,default=a"`
		F1 string `config:"K1"`
	}{})
	reg([]field{{"strings", "plain", ""}, {"ints", "def", "1"}}, struct {
		F0 []string `config:"K0"`
		F1 []int `config:"K1,default=1"`
	}{})
	reg([]field{{"text", "plain", ""}, {"int", "def", "1"}, {"texts", "none", ""}, {"int", "def", "bad"}, {"nstring", "def", "1"}, {"mnkey", "def", "a=1"}}, struct {
		F0 Text `config:"K0"`
		F1 int `config:"K1,default=1"`
		F2 []Text 
		F3 int `config:"K3,default=bad"`
		F4 NString `config:"K4,default=1"`
		F5 map[NString]string `config:"K5,default=a=1"`
	}{})
	reg([]field{{"own", "def", "1"}, {"json", "plain", ""}, {"text", "def", "a"}, {"json", "none", ""}}, struct {
		F0 Own `config:"K0,default=1"`
		F1 JSONT `config:"K1"`
		F2 Text `config:"K2,default=a"`
		F3 JSONT 
	}{})
	reg([]field{{"nint", "plain", ""}, {"bools", "plain", ""}, {"nbool", "def", "1"}, {"nstring", "plain", ""}, {"bool", "def", "1"}}, struct {
		F0 NInt `config:"K0"`
		F1 []bool `config:"K1"`
		F2 NBool `config:"K2,default=1"`
		F3 NString `config:"K3"`
		F4 bool `config:"K4,default=1"`
	}{})
	reg([]field{{"string", "plain", ""}, {"text", "plain", ""}}, struct {
		F0 string `config:"K0"`
		F1 Text `config:"K1"`
	}{})
	reg([]field{{"nstring", "none", ""}, {"mint", "none", ""}, {"nints", "plain", ""}, {"int", "def", "1"}, {"strings", "none", ""}}, struct {
		F0 NString 
		F1 map[string]int 
		F2 []NInt `config:"K2"`
		F3 int `config:"K3,default=1"`
		F4 []string 
	}{})
	reg([]field{{"bools", "none", ""}, {"bools", "def", "1"}, {"nstring", "none", ""}, {"bools", "plain", ""}}, struct {
		F0 []bool 
		F1 []bool `config:"K1,default=1"`
		F2 NString 
		F3 []bool `config:"K3"`
	}{})
	reg([]field{{"mnkey", "def", "a=1"}, {"mbool", "plain", ""}, {"mbool", "none", ""}}, struct {
		F0 map[NString]string `config:"K0,default=a=1"`
		F1 map[string]bool `config:"K1"`
		F2 map[string]bool 
	}{})
	reg([]field{{"text", "none", ""}, {"mint", "def", "a=1"}}, struct {
		F0 Text 
		F1 map[string]int `config:"K1,default=a=1"`
	}{})
	reg([]field{{"nstring", "plain", ""}, {"text", "plain", ""}, {"nbool", "def", "1"}, {"json", "bogus", ""}, {"mnkey", "def", "a=1"}, {"nints", "def", "1"}}, struct {
		F0 NString `config:"K0"`
		F1 Text `config:"K1"`
		F2 NBool `config:"K2,default=1"`
		F3 JSONT `config:"K3,bogus=1"`
		F4 map[NString]string `config:"K4,default=a=1"`
		F5 []NInt `config:"K5,default=1"`
	}{})
	reg([]field{{"texts", "plain", ""}, {"mstring", "none", ""}, {"mint", "def", "a=1"}, {"nstring", "def", "1"}}, struct {
		F0 []Text `config:"K0"`
		F1 map[string]string 
		F2 map[string]int `config:"K2,default=a=1"`
		F3 NString `config:"K3,default=1"`
	}{})
	reg([]field{{"int", "def", "1"}, {"string", "def", "1"}, {"nbool", "def", "1"}, {"nint", "def", "a"}}, struct {
		F0 int `config:"K0,default=1"`
		F1 string `config:"K1,default=1"`
		F2 NBool `config:"K2,default=1"`
		F3 NInt `config:"K3,default=a"`
	}{})
	reg([]field{{"json", "plain", ""}, {"own", "def", "a"}, {"own", "def", "1"}}, struct {
		F0 JSONT `config:"K0"`
		F1 Own `config:"K1,default=a"`
		F2 Own `config:"K2,default=1"`
	}{})
	reg([]field{{"ints", "plain", ""}, {"nstring", "plain", ""}, {"nints", "plain", ""}, {"mbool", "plain", ""}, {"mstring", "def", "a=1"}, {"nints", "plain", ""}}, struct {
		F0 []int `config:"K0"`
		F1 NString `config:"K1"`
		F2 []NInt `config:"K2"`
		F3 map[string]bool `config:"K3"`
		F4 map[string]string `config:"K4,default=a=1"`
		F5 []NInt `config:"K5"`
	}{})
	reg([]field{{"bools", "plain", ""}, {"int", "plain", ""}, {"nbool", "def", "1"}, {"ints", "def", "1"}}, struct {
		F0 []bool `config:"K0"`
		F1 int `config:"K1"`
		F2 NBool `config:"K2,default=1"`
		F3 []int `config:"K3,default=1"`
	}{})
	reg([]field{{"texts", "plain", ""}, {"string", "def", "1"}, {"bools", "def", "1"}, {"strings", "plain", ""}}, struct {
		F0 []Text `config:"K0"`
		F1 string `config:"K1,default=1"`
		F2 []bool `config:"K2,default=1"`
		F3 []string `config:"K3"`
	}{})
	reg([]field{{"mint", "none", ""}, {"json", "def", "1"}, {"own", "plain", ""}, {"nbool", "def", "1"}}, struct {
		F0 map[string]int 
		F1 JSONT `config:"K1,default=1"`
		F2 Own `config:"K2"`
		F3 NBool `config:"K3,default=1"`
	}{})
	reg([]field{{"mbool", "plain", ""}, {"bool", "def", "1"}, {"nbool", "none", ""}, {"mnkey", "plain", ""}, {"text", "def", "1"}, {"nstring", "none", ""}}, struct {
		F0 map[string]bool `config:"K0"`
		F1 bool `config:"K1,default=1"`
		F2 NBool 
		F3 map[NString]string `config:"K3"`
		F4 Text `config:"K4,default=1"`
		F5 NString 
	}{})
	reg([]field{{"mint", "none", ""}, {"texts", "def", "1"}, {"json", "late", ""}, {"nbool", "def", "1"}}, struct {
		F0 map[string]int 
		F1 []Text `config:"K1,default=1"`
		F2 JSONT `config:"K2,default=1,required"`
		F3 NBool `config:"K3,default=1"`
	}{})
	reg([]field{{"texts", "def", "1"}, {"text", "def", "1"}, {"text", "def", "1"}, {"json", "def", "1"}}, struct {
		F0 []Text `config:"K0,default=1"`
		F1 Text `config:"K1,default=1"`
		F2 Text `config:"K2,default=1"`
		F3 JSONT `config:"K3,default=1"`
	}{})
	reg([]field{{"bool", "def", "1"}, {"text", "def", "1"}, {"nbool", "none", ""}, {"nstring", "plain", ""}, {"bool", "def", "1"}, {"int", "plain", ""}}, struct {
		F0 bool `config:"K0,default=1"`
		F1 Text `config:"K1,default=1"`
		F2 NBool 
		F3 NString `config:"K3"`
		F4 bool `config:"K4,default=1"`
		F5 int `config:"K5"`
	}{})
	reg([]field{{"mnkey", "none", ""}, {"nints", "plain", ""}, {"nbool", "def", ""}}, struct {
		F0 map[NString]string 
		F1 []NInt `config:"K1"`
		F2 NBool `config:"K2,default="`
	}{})
	reg([]field{{"string", "def", "1"}, {"own", "plain", ""}, {"nbool", "plain", ""}, {"mbool", "plain", ""}}, struct {
		F0 string `config:"K0,default=1"`
		F1 Own `config:"K1"`
		F2 NBool `config:"K2"`
		F3 map[string]bool `config:"K3"`
	}{})
	reg([]field{{"texts", "def", "1"}, {"mnkey", "def", "a=1"}, {"texts", "plain", ""}, {"nbool", "def", "1"}, {"nstring", "def", "a"}, {"nstring", "plain", ""}}, struct {
		F0 []Text `config:"K0,default=1"`
		F1 map[NString]string `config:"K1,default=a=1"`
		F2 []Text `config:"K2"`
		F3 NBool `config:"K3,default=1"`
		F4 NString `config:"K4,default=a"`
		F5 NString `config:"K5"`
	}{})
	reg([]field{{"nint", "none", ""}, {"mnkey", "def", "a=1"}, {"nints", "def", "1"}}, struct {
		F0 NInt 
		F1 map[NString]string `config:"K1,default=a=1"`
		F2 []NInt `config:"K2,default=1"`
	}{})
	reg([]field{{"strings", "def", "1"}, {"int64", "def", "1"}}, struct {
		F0 []string `config:"K0,default=1"`
		F1 int64 `config:"K1,default=1"`
	}{})
	reg([]field{{"bools", "def", "1"}, {"mnkey", "plain", ""}, {"own", "plain", ""}, {"json", "plain", ""}, {"string", "plain", ""}, {"mbool", "plain", ""}}, struct {
		F0 []bool `config:"K0,default=1"`
		F1 map[NString]string `config:"K1"`
		F2 Own `config:"K2"`
		F3 JSONT `config:"K3"`
		F4 string `config:"K4"`
		F5 map[string]bool `config:"K5"`
	}{})
	reg([]field{{"own", "bogus", ""}, {"nint", "plain", ""}, {"iface", "plain", ""}, {"text", "none", ""}}, struct {
		F0 Own `config:"K0,bogus=1"`
		F1 NInt `config:"K1"`
		F2 any `config:"K2"`
		F3 Text 
	}{})
	reg([]field{{"nints", "none", ""}, {"texts", "def", "1"}, {"nints", "plain", ""}, {"texts", "def", "bad"}}, struct {
		F0 []NInt 
		F1 []Text `config:"K1,default=1"`
		F2 []NInt `config:"K2"`
		F3 []Text `config:"K3,default=bad"`
	}{})
	reg([]field{{"nstring", "def", "1"}, {"nint", "plain", ""}, {"nstring", "def", "1"}, {"texts", "def", "1"}, {"bool", "def", "1"}, {"nstring", "plain", ""}}, struct {
		F0 NString `config:"K0,default=1"`
		F1 NInt `config:"K1"`
		F2 NString `config:"K2,default=1"`
		F3 []Text `config:"K3,default=1"`
		F4 bool `config:"K4,default=1"`
		F5 NString `config:"K5"`
	}{})
	reg([]field{{"mstring", "def", "a=1"}, {"bools", "def", "1"}, {"nints", "none", ""}, {"bools", "plain", ""}, {"nints", "none", ""}, {"texts", "def", "1"}}, struct {
		F0 map[string]string `config:"K0,default=a=1"`
		F1 []bool `config:"K1,default=1"`
		F2 []NInt 
		F3 []bool `config:"K3"`
		F4 []NInt 
		F5 []Text `config:"K5,default=1"`
	}{})
	reg([]field{{"nints", "def", "1"}, {"mstring", "plain", ""}}, struct {
		F0 []NInt `config:"K0,default=1"`
		F1 map[string]string `config:"K1"`
	}{})
	reg([]field{{"text", "def", "1"}, {"texts", "plain", ""}}, struct {
		F0 Text `config:"K0,default=1"`
		F1 []Text `config:"K1"`
	}{})
	reg([]field{{"mint", "plain", ""}, {"nints", "def", "1"}, {"own", "def", "1"}, {"int", "plain", ""}, {"strings", "none", ""}, {"ints", "plain", ""}}, struct {
		F0 map[string]int `config:"K0"`
		F1 []NInt `config:"K1,default=1"`
		F2 Own `config:"K2,default=1"`
		F3 int `config:"K3"`
		F4 []string 
		F5 []int `config:"K5"`
	}{})
	reg([]field{{"bool", "plain", ""}, {"strings", "none", ""}, {"json", "def", "1"}, {"nints", "plain", ""}, {"int", "def", "1"}, {"mbool", "def", "a=1"}}, struct {
		F0 bool `config:"K0"`
		F1 []string 
		F2 JSONT `config:"K2,default=1"`
		F3 []NInt `config:"K3"`
		F4 int `config:"K4,default=1"`
		F5 map[string]bool `config:"K5,default=a=1"`
	}{})
	reg([]field{{"string", "def", "1"}, {"mint", "plain", ""}, {"bool", "plain", ""}, {"mint", "def", "a=1"}}, struct {
		F0 string `config:"K0,default=1"`
		F1 map[string]int `config:"K1"`
		F2 bool `config:"K2"`
		F3 map[string]int `config:"K3,default=a=1"`
	}{})
	reg([]field{{"bools", "none", ""}, {"nbool", "plain", ""}}, struct {
		F0 []bool 
		F1 NBool `config:"K1"`
	}{})
	reg([]field{{"mint", "plain", ""}, {"texts", "plain", ""}}, struct {
		F0 map[string]int `config:"K0"`
		F1 []Text `config:"K1"`
	}{})
	reg([]field{{"bools", "def", "1"}, {"texts", "plain", ""}}, struct {
		F0 []bool `config:"K0,default=1"`
		F1 []Text `config:"K1"`
	}{})
	reg([]field{{"strings", "def", "1"}, {"mfloat", "plain", ""}, {"nint", "plain", ""}, {"string", "def", "1"}, {"mnkey", "def", "a=1"}, {"bool", "def", "1"}}, struct {
		F0 []string `config:"K0,default=1"`
		F1 map[string]float64 `config:"K1"`
		F2 NInt `config:"K2"`
		F3 string `config:"K3,default=1"`
		F4 map[NString]string `config:"K4,default=a=1"`
		F5 bool `config:"K5,default=1"`
	}{})
	reg([]field{{"mnkey", "def", "a=1"}, {"int", "def", "1"}}, struct {
		F0 map[NString]string `config:"K0,default=a=1"`
		F1 int `config:"K1,default=1"`
	}{})
	reg([]field{{"nstring", "def", ""}, {"bools", "plain", ""}, {"mnkey", "plain", ""}}, struct {
		F0 NString `config:"K0,default="`
		F1 []bool `config:"K1"`
		F2 map[NString]string `config:"K2"`
	}{})
	reg([]field{{"ints", "def", "a=1"}, {"mbool", "none", ""}, {"texts", "def", "1"}}, struct {
		F0 []int `config:"K0,default=a=1"`
		F1 map[string]bool 
		F2 []Text `config:"K2,default=1"`
	}{})
	reg([]field{{"string", "def", "1"}, {"text", "def", "1"}, {"nint", "bogus", ""}, {"nint", "none", ""}, {"json", "def", "1"}}, struct {
		F0 string `config:"K0,default=1"`
		F1 Text `config:"K1,default=1"`
		F2 NInt `config:"K2,bogus=1"`
		F3 NInt 
		F4 JSONT `config:"K4,default=1"`
	}{})
	reg([]field{{"string", "none", ""}, {"mnkey", "def", "a"}, {"nbool", "none", ""}, {"int", "plain", ""}}, struct {
		F0 string 
		F1 map[NString]string `config:"K1,default=a"`
		F2 NBool 
		F3 int `config:"K3"`
	}{})
	reg([]field{{"mint", "plain", ""}, {"mstring", "plain", ""}, {"nint", "def", "1"}, {"nints", "def", "1"}, {"strings", "def", "1"}, {"bool", "def", "1"}}, struct {
		F0 map[string]int `config:"K0"`
		F1 map[string]string `config:"K1"`
		F2 NInt `config:"K2,default=1"`
		F3 []NInt `config:"K3,default=1"`
		F4 []string `config:"K4,default=1"`
		F5 bool `config:"K5,default=1"`
	}{})
	reg([]field{{"nints", "plain", ""}, {"strings", "plain", ""}, {"texts", "none", ""}}, struct {
		F0 []NInt `config:"K0"`
		F1 []string `config:"K1"`
		F2 []Text 
	}{})
	reg([]field{{"string", "def", "1"}, {"mnkey", "def", "a=1"}, {"json", "none", ""}, {"mstring", "plain", ""}}, struct {
		F0 string `config:"K0,default=1"`
		F1 map[NString]string `config:"K1,default=a=1"`
		F2 JSONT 
		F3 map[string]string `config:"K3"`
	}{})
	reg([]field{{"nints", "none", ""}, {"bools", "plain", ""}, {"mbool", "def", "a=1"}, {"text", "none", ""}, {"strings", "def", "1"}, {"string", "def", "a"}}, struct {
		F0 []NInt 
		F1 []bool `config:"K1"`
		F2 map[string]bool `config:"K2,default=a=1"`
		F3 Text 
		F4 []string `config:"K4,default=1"`
		F5 string `config:"K5,default=a"`
	}{})
	reg([]field{{"int", "def", "1"}, {"bool", "plain", ""}, {"mfloat", "def", "a=1"}, {"own", "def", "a=1"}}, struct {
		F0 int `config:"K0,default=1"`
		F1 bool `config:"K1"`
		F2 map[string]float64 `config:"K2,default=a=1"`
		F3 Own `config:"K3,default=a=1"`
	}{})
	reg([]field{{"nbool", "plain", ""}, {"bool", "def", "a"}, {"int", "def", "bad"}}, struct {
		F0 NBool `config:"K0"`
		F1 bool `config:"K1,default=a"`
		F2 int `config:"K2,default=bad"`
	}{})
	reg([]field{{"json", "def", "1"}, {"nstring", "plain", ""}}, struct {
		F0 JSONT `config:"K0,default=1"`
		F1 NString `config:"K1"`
	}{})
	reg([]field{{"own", "none", ""}, {"bool", "none", ""}, {"mbool", "def", "a=1"}}, struct {
		F0 Own 
		F1 bool 
		F2 map[string]bool `config:"K2,default=a=1"`
	}{})
	reg([]field{{"bool", "def", "1"}, {"nint", "plain", ""}, {"nint", "def", "1"}}, struct {
		F0 bool `config:"K0,default=1"`
		F1 NInt `config:"K1"`
		F2 NInt `config:"K2,default=1"`
	}{})
	reg([]field{{"bool", "plain", ""}, {"nstring", "plain", ""}, {"bools", "plain", ""}}, struct {
		F0 bool `config:"K0"`
		F1 NString `config:"K1"`
		F2 []bool `config:"K2"`
	}{})
	reg([]field{{"nints", "def", "1"}, {"json", "def", "1"}, {"nbool", "def", "a=1"}, {"string", "def", "1"}, {"strings", "plain", ""}}, struct {
		F0 []NInt `config:"K0,default=1"`
		F1 JSONT `config:"K1,default=1"`
		F2 NBool `config:"K2,default=a=1"`
		F3 string `config:"K3,default=1"`
		F4 []string `config:"K4"`
	}{})
	reg([]field{{"ints", "def", "1"}, {"text", "plain", ""}, {"text", "late", ""}, {"json", "none", ""}}, struct {
		F0 []int `config:"K0,default=1"`
		F1 Text `config:"K1"`
		F2 Text `config:"K2,default=1,required"`
		F3 JSONT 
	}{})
	reg([]field{{"nstring", "def", "1"}, {"mstring", "plain", ""}, {"mstring", "def", "a=1"}, {"texts", "def", "1"}, {"json", "plain", ""}}, struct {
		F0 NString `config:"K0,default=1"`
		F1 map[string]string `config:"K1"`
		F2 map[string]string `config:"K2,default=a=1"`
		F3 []Text `config:"K3,default=1"`
		F4 JSONT `config:"K4"`
	}{})
	reg([]field{{"int", "def", "1"}, {"string", "def", "1"}, {"int", "def", "bad"}, {"mbool", "plain", ""}, {"mint", "def", "a=1"}, {"json", "plain", ""}}, struct {
		F0 int `config:"K0,default=1"`
		F1 string `config:"K1,default=1"`
		F2 int `config:"K2,default=bad"`
		F3 map[string]bool `config:"K3"`
		F4 map[string]int `config:"K4,default=a=1"`
		F5 JSONT `config:"K5"`
	}{})
	reg([]field{{"bools", "none", ""}, {"mstring", "none", ""}}, struct {
		F0 []bool 
		F1 map[string]string 
	}{})
	reg([]field{{"json", "plain", ""}, {"nints", "none", ""}}, struct {
		F0 JSONT `config:"K0"`
		F1 []NInt 
	}{})
	reg([]field{{"mint", "none", ""}, {"mnkey", "plain", ""}, {"json", "plain", ""}, {"own", "none", ""}}, struct {
		F0 map[string]int 
		F1 map[NString]string `config:"K1"`
		F2 JSONT `config:"K2"`
		F3 Own 
	}{})
	reg([]field{{"text", "def", "1"}, {"mstring", "none", ""}}, struct {
		F0 Text `config:"K0,default=1"`
		F1 map[string]string 
	}{})
	reg([]field{{"nint", "def", "1"}, {"nint", "plain", ""}, {"json", "plain", ""}}, struct {
		F0 NInt `config:"K0,default=1"`
		F1 NInt `config:"K1"`
		F2 JSONT `config:"K2"`
	}{})
	reg([]field{{"nints", "none", ""}, {"nints", "def", "1"}, {"nbool", "plain", ""}, {"ints", "def", "a"}, {"nbool", "plain", ""}, {"bools", "def", "1"}}, struct {
		F0 []NInt 
		F1 []NInt `config:"K1,default=1"`
		F2 NBool `config:"K2"`
		F3 []int `config:"K3,default=a"`
		F4 NBool `config:"K4"`
		F5 []bool `config:"K5,default=1"`
	}{})
	reg([]field{{"ints", "def", "1"}, {"nints", "def", ""}, {"nbool", "def", "1"}, {"own", "none", ""}, {"own", "none", ""}, {"nbool", "plain", ""}}, struct {
		F0 []int `config:"K0,default=1"`
		F1 []NInt `config:"K1,default="`
		F2 NBool `config:"K2,default=1"`
		F3 Own 
		F4 Own 
		F5 NBool `config:"K5"`
	}{})
	reg([]field{{"nint", "def", "1"}, {"string", "def", "1"}, {"strings", "def", "1"}, {"mstring", "def", "a=1"}}, struct {
		F0 NInt `config:"K0,default=1"`
		F1 string `config:"K1,default=1"`
		F2 []string `config:"K2,default=1"`
		F3 map[string]string `config:"K3,default=a=1"`
	}{})
	reg([]field{{"bools", "def", "1"}, {"strings", "plain", ""}, {"mbool", "def", "a=1"}}, struct {
		F0 []bool `config:"K0,default=1"`
		F1 []string `config:"K1"`
		F2 map[string]bool `config:"K2,default=a=1"`
	}{})
	reg([]field{{"json", "plain", ""}, {"strings", "plain", ""}, {"bool", "none", ""}, {"bools", "none", ""}}, struct {
		F0 JSONT `config:"K0"`
		F1 []string `config:"K1"`
		F2 bool 
		F3 []bool 
	}{})
	reg([]field{{"mstring", "none", ""}, {"string", "def", "1"}, {"own", "def", "1"}, {"mint", "def", "a=1"}, {"texts", "def", "1"}, {"string", "plain", ""}}, struct {
		F0 map[string]string 
		F1 string `config:"K1,default=1"`
		F2 Own `config:"K2,default=1"`
		F3 map[string]int `config:"K3,default=a=1"`
		F4 []Text `config:"K4,default=1"`
		F5 string `config:"K5"`
	}{})
	reg([]field{{"nints", "def", "1"}, {"bools", "def", "1"}, {"mint", "plain", ""}, {"strings", "def", "1"}, {"ints", "def", "1"}, {"texts", "none", ""}}, struct {
		F0 []NInt `config:"K0,default=1"`
		F1 []bool `config:"K1,default=1"`
		F2 map[string]int `config:"K2"`
		F3 []string `config:"K3,default=1"`
		F4 []int `config:"K4,default=1"`
		F5 []Text 
	}{})
	reg([]field{{"mint", "def", "a=1"}, {"mbool", "def", "a=1"}}, struct {
		F0 map[string]int `config:"K0,default=a=1"`
		F1 map[string]bool `config:"K1,default=a=1"`
	}{})
	reg([]field{{"bools", "none", ""}, {"mbool", "def", "a=1"}, {"string", "def", "1"}, {"ints", "def", "1"}}, struct {
		F0 []bool 
		F1 map[string]bool `config:"K1,default=a=1"`
		F2 string `config:"K2,default=1"`
		F3 []int `config:"K3,default=1"`
	}{})
	reg([]field{{"int", "def", "1"}, {"ints", "def", "1"}, {"mbool", "plain", ""}, {"nbool", "def", "1"}}, struct {
		F0 int `config:"K0,default=1"`
		F1 []int `config:"K1,default=1"`
		F2 map[string]bool `config:"K2"`
		F3 NBool `config:"K3,default=1"`
	}{})
	reg([]field{{"bool", "plain", ""}, {"mnkey", "plain", ""}}, struct {
		F0 bool `config:"K0"`
		F1 map[NString]string `config:"K1"`
	}{})
	reg([]field{{"bool", "plain", ""}, {"mnkey", "def", "a=1"}, {"text", "none", ""}, {"mbool", "none", ""}, {"int", "def", "bad"}}, struct {
		F0 bool `config:"K0"`
		F1 map[NString]string `config:"K1,default=a=1"`
		F2 Text 
		F3 map[string]bool 
		F4 int `config:"K4,default=bad"`
	}{})
	reg([]field{{"nbool", "def", "1"}, {"bools", "none", ""}, {"nint", "def", "1"}, {"nints", "plain", ""}, {"nbool", "def", "1"}, {"nstring", "def", "1"}}, struct {
		F0 NBool `config:"K0,default=1"`
		F1 []bool 
		F2 NInt `config:"K2,default=1"`
		F3 []NInt `config:"K3"`
		F4 NBool `config:"K4,default=1"`
		F5 NString `config:"K5,default=1"`
	}{})
	reg([]field{{"mint", "bogus", ""}, {"nints", "def", "1"}, {"mint", "plain", ""}, {"nstring", "plain", ""}}, struct {
		F0 map[string]int `config:"K0,bogus=1"`
		F1 []NInt `config:"K1,default=1"`
		F2 map[string]int `config:"K2"`
		F3 NString `config:"K3"`
	}{})
	reg([]field{{"strings", "plain", ""}, {"mnkey", "plain", ""}}, struct {
		F0 []string `config:"K0"`
		F1 map[NString]string `config:"K1"`
	}{})
	reg([]field{{"nint", "plain", ""}, {"nints", "plain", ""}, {"texts", "def", "1"}, {"string", "plain", ""}, {"string", "def", "1"}}, struct {
		F0 NInt `config:"K0"`
		F1 []NInt `config:"K1"`
		F2 []Text `config:"K2,default=1"`
		F3 string `config:"K3"`
		F4 string `config:"K4,default=1"`
	}{})
	reg([]field{{"nints", "def", "1"}, {"text", "def", "1"}, {"uint", "def", "1"}, {"mbool", "none", ""}}, struct {
		F0 []NInt `config:"K0,default=1"`
		F1 Text `config:"K1,default=1"`
		F2 uint `config:"K2,default=1"`
		F3 map[string]bool 
	}{})
	reg([]field{{"own", "def", "1"}, {"strings", "def", "1"}, {"json", "def", "1"}, {"mbool", "plain", ""}, {"strings", "plain", ""}, {"nints", "def", "1"}}, struct {
		F0 Own `config:"K0,default=1"`
		F1 []string `config:"K1,default=1"`
		F2 JSONT `config:"K2,default=1"`
		F3 map[string]bool `config:"K3"`
		F4 []string `config:"K4"`
		F5 []NInt `config:"K5,default=1"`
	}{})
	reg([]field{{"nstring", "def", "a"}, {"mstring", "def", "a"}, {"strings", "def", "1"}}, struct {
		F0 NString `config:"K0,default=a"`
		F1 map[string]string `config:"K1,default=a"`
		F2 []string `config:"K2,default=1"`
	}{})
	reg([]field{{"nstring", "plain", ""}, {"nbool", "def", "1"}}, struct {
		F0 NString `config:"K0"`
		F1 NBool `config:"K1,default=1"`
	}{})
	reg([]field{{"mbool", "def", "a=1"}, {"strings", "def", "1"}, {"struct", "plain", ""}}, struct {
		F0 map[string]bool `config:"K0,default=a=1"`
		F1 []string `config:"K1,default=1"`
		F2 Inner `config:"K2"`
	}{})
	reg([]field{{"bools", "none", ""}, {"nints", "bogus", ""}, {"int", "def", "bad"}}, struct {
		F0 []bool 
		F1 []NInt `config:"K1,bogus=1"`
		F2 int `config:"K2,default=bad"`
	}{})
	reg([]field{{"mstring", "def", "a=1"}, {"string", "plain", ""}, {"mnkey", "def", "1"}, {"mnkey", "none", ""}, {"bools", "plain", ""}, {"string", "def", "1"}}, struct {
		F0 map[string]string `config:"K0,default=a=1"`
		F1 string `config:"K1"`
		F2 map[NString]string `config:"K2,default=1"`
		F3 map[NString]string 
		F4 []bool `config:"K4"`
		F5 string `config:"K5,default=1"`
	}{})
	reg([]field{{"bool", "def", "1"}, {"strings", "def", "1"}, {"nint", "plain", ""}}, struct {
		F0 bool `config:"K0,default=1"`
		F1 []string `config:"K1,default=1"`
		F2 NInt `config:"K2"`
	}{})
	reg([]field{{"mstring", "def", "a=1"}, {"bools", "none", ""}, {"own", "none", ""}}, struct {
		F0 map[string]string `config:"K0,default=a=1"`
		F1 []bool 
		F2 Own 
	}{})
	reg([]field{{"nint", "def", "1"}, {"mnkey", "none", ""}, {"mint", "def", "a"}, {"nint", "def", "1"}}, struct {
		F0 NInt `config:"K0,default=1"`
		F1 map[NString]string 
		F2 map[string]int `config:"K2,default=a"`
		F3 NInt `config:"K3,default=1"`
	}{})
	reg([]field{{"bools", "def", "1"}, {"own", "none", ""}, {"bool", "def", "1"}, {"mbool", "def", "a=1"}, {"strings", "plain", ""}, {"bools", "plain", ""}}, struct {
		F0 []bool `config:"K0,default=1"`
		F1 Own 
		F2 bool `config:"K2,default=1"`
		F3 map[string]bool `config:"K3,default=a=1"`
		F4 []string `config:"K4"`
		F5 []bool `config:"K5"`
	}{})
	reg([]field{{"bools", "plain", ""}, {"nbool", "def", "bad"}, {"mint", "def", "1"}}, struct {
		F0 []bool `config:"K0"`
		F1 NBool `config:"K1,default=bad"`
		F2 map[string]int `config:"K2,default=1"`
	}{})
	reg([]field{{"int", "plain", ""}, {"mstring", "def", ""}, {"mint", "def", "a=1"}, {"mbool", "plain", ""}, {"nbool", "def", "1"}, {"nstring", "plain", ""}}, struct {
		F0 int `config:"K0"`
		F1 map[string]string `config:"K1,default="`
		F2 map[string]int `config:"K2,default=a=1"`
		F3 map[string]bool `config:"K3"`
		F4 NBool `config:"K4,default=1"`
		F5 NString `config:"K5"`
	}{})
	reg([]field{{"mstring", "def", "a=1"}, {"mnkey", "def", "bad"}, {"string", "bogus", ""}, {"nbool", "plain", ""}, {"strings", "def", "1"}}, struct {
		F0 map[string]string `config:"K0,default=a=1"`
		F1 map[NString]string `config:"K1,default=bad"`
		F2 string `config:"K2,bogus=1"`
		F3 NBool `config:"K3"`
		F4 []string `config:"K4,default=1"`
	}{})
	reg([]field{{"ints", "def", ""}, {"mstring", "plain", ""}, {"bools", "def", "1"}}, struct {
		F0 []int `config:"K0,default="`
		F1 map[string]string `config:"K1"`
		F2 []bool `config:"K2,default=1"`
	}{})
	reg([]field{{"own", "plain", ""}, {"text", "none", ""}, {"own", "plain", ""}, {"own", "plain", ""}, {"json", "def", "1"}, {"int", "def", ""}}, struct {
		F0 Own `config:"K0"`
		F1 Text 
		F2 Own `config:"K2"`
		F3 Own `config:"K3"`
		F4 JSONT `config:"K4,default=1"`
		F5 int `config:"K5,default="`
	}{})
	reg([]field{{"mnkey", "none", ""}, {"mbool", "def", "a=1"}, {"text", "none", ""}}, struct {
		F0 map[NString]string 
		F1 map[string]bool `config:"K1,default=a=1"`
		F2 Text 
	}{})
	reg([]field{{"nbool", "none", ""}, {"bool", "plain", ""}, {"nint", "def", "1"}}, struct {
		F0 NBool 
		F1 bool `config:"K1"`
		F2 NInt `config:"K2,default=1"`
	}{})
	reg([]field{{"bools", "def", "a"}, {"bool", "none", ""}, {"mbool", "plain", ""}}, struct {
		F0 []bool `config:"K0,default=a"`
		F1 bool 
		F2 map[string]bool `config:"K2"`
	}{})
	reg([]field{{"bools", "def", "a"}, {"json", "plain", ""}, {"bool", "def", "1"}, {"nint", "plain", ""}, {"mnkey", "def", "bad"}}, struct {
		F0 []bool `config:"K0,default=a"`
		F1 JSONT `config:"K1"`
		F2 bool `config:"K2,default=1"`
		F3 NInt `config:"K3"`
		F4 map[NString]string `config:"K4,default=bad"`
	}{})
	reg([]field{{"mnkey", "late", ""}, {"bool", "plain", ""}, {"mint", "none", ""}, {"nints", "plain", ""}, {"mstring", "def", "a=1"}, {"text", "plain", ""}}, struct {
		F0 map[NString]string `config:"K0,default=1,required"`
		F1 bool `config:"K1"`
		F2 map[string]int 
		F3 []NInt `config:"K3"`
		F4 map[string]string `config:"K4,default=a=1"`
		F5 Text `config:"K5"`
	}{})
	reg([]field{{"text", "plain", ""}, {"ints", "def", "1"}, {"mint", "none", ""}, {"nbool", "def", "1"}, {"mbool", "late", ""}, {"mbool", "plain", ""}}, struct {
		F0 Text `config:"K0"`
		F1 []int `config:"K1,default=1"`
		F2 map[string]int 
		F3 NBool `config:"K3,default=1"`
		F4 map[string]bool `config:"K4,default=1,required"`
		F5 map[string]bool `config:"K5"`
	}{})
	reg([]field{{"nint", "def", "1"}, {"strings", "plain", ""}}, struct {
		F0 NInt `config:"K0,default=1"`
		F1 []string `config:"K1"`
	}{})
	reg([]field{{"strings", "plain", ""}, {"mbool", "plain", ""}, {"mnkey", "plain", ""}}, struct {
		F0 []string `config:"K0"`
		F1 map[string]bool `config:"K1"`
		F2 map[NString]string `config:"K2"`
	}{})
	reg([]field{{"ints", "def", "1"}, {"json", "bogus", ""}}, struct {
		F0 []int `config:"K0,default=1"`
		F1 JSONT `config:"K1,bogus=1"`
	}{})
}
