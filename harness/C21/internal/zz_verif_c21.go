package vimlparser

// What C21 looks at.

func VerifMatch(s, pat string) bool { return viml_eqregh(s, pat) }

var VerifClass = map[string]func(string) bool{
	"isalpha": isalpha, "isalnum": isalnum, "isdigit": isdigit, "isodigit": isodigit, "isxdigit": isxdigit,
	"iswordc": iswordc, "iswordc1": iswordc1, "iswhite": iswhite, "isnamec": isnamec, "isnamec1": isnamec1,
	"isidc": isidc, "isupper": isupper, "islower": islower,
}

func VerifIsArgName(s string) bool                  { return isargname(s) }
func VerifIsVarName(s string) bool                  { return isvarname(s) }
func VerifSplit(s string) []string                  { return viml_split(s, `\zs`) }
func VerifEscape(s, chars string) string            { return viml_escape(s, chars) }
func VerifStr2nr(s string, base int) int            { return viml_str2nr(s, base) }
func VerifStridx(a, b string) int                   { return viml_stridx(a, b) }
func VerifEqualci(a, b string) bool                 { return viml_equalci(a, b) }
func VerifJoin(l []string, sep string) string       { return viml_join(l, sep) }
func VerifRange(a, b int) []int                     { return viml_range(a, b) }
func VerifPrintf(f string, a ...interface{}) string { return viml_printf(f, a...) }
