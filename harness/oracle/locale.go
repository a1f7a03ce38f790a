package oracle

import "strings"

var cjkCharsets = map[string]bool{
	"jis": true, "eucjp": true, "euckr": true, "euccn": true, "sjis": true, "cp932": true,
	"cp51932": true, "cp936": true, "cp949": true, "cp950": true, "big5": true, "gbk": true, "gb2312": true,
}

// LocaleEA decides a locale of the form [language[_TERRITORY].]charset[@modifier].
// Only call it for locales in the documented form.
func LocaleEA(language, charset, modifier string) bool {
	if strings.EqualFold(modifier, "cjk_narrow") {
		return false
	}
	cs := strings.ToLower(charset)
	if cjkCharsets[cs] {
		return true
	}
	if cs == "utf-8" || cs == "utf8" {
		switch language {
		case "ja", "ko", "zh":
			return true
		}
	}
	return false
}
