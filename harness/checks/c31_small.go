//go:build regen

package checks

import (
	"io"
	"log"
	"sort"
	"strings"

	"verif/rnd"
)

var quietLog = log.New(io.Discard, "", 0)

func sortStrings(s []string) { sort.Strings(s) }

// smallFiles are short but complete files.
func smallFiles(r *rnd.Rand) map[string]string {
	pick := func(head string, lines []string) string {
		var b strings.Builder
		b.WriteString(head)
		for i, l := range lines {
			if i == 0 || r.Intn(4) > 0 {
				b.WriteString(l + "\n")
			}
		}
		b.WriteString("\n# EOF\n")
		return b.String()
	}
	eaw := func(v string) string {
		return pick("# EastAsianWidth-"+v+".txt\n\n", []string{
			"0000..001F;N  # Cc    [32] <control-0000>..<control-001F>", "0020;Na # Zs         SPACE", "0021..007E;Na # Po    [94] EXCLAMATION MARK..TILDE",
			"00A1;A  # Po         INVERTED EXCLAMATION MARK", "00A4;A  # Sc         CURRENCY SIGN", "0300..036F;A  # Mn   [112] COMBINING GRAVE ACCENT..COMBINING LATIN SMALL LETTER X",
			"1100..115F;W  # Lo    [96] HANGUL CHOSEONG KIYEOK..HANGUL CHOSEONG FILLER", "20A9;H  # Sc         WON SIGN", "231A..231B;W  # So     [2] WATCH..HOURGLASS",
			"4E00..9FFC;W  # Lo [20989] CJK UNIFIED IDEOGRAPH-4E00..CJK UNIFIED IDEOGRAPH-9FFC", "FF01..FF03;F  # Po     [3] FULLWIDTH EXCLAMATION MARK..FULLWIDTH NUMBER SIGN",
			"1F600..1F64F;W  # So    [80] GRINNING FACE..PERSON WITH FOLDED HANDS", "100000..10FFFD;A  # Co [65534] <private-use-100000>..<private-use-10FFFD>"})
	}
	emoji := func(v string) string {
		return pick("# emoji-data-"+v+".txt\n\n# @missing: 0000..10FFFF  ; Emoji_Presentation ; No\n\n", []string{
			"231A..231B    ; Emoji_Presentation   # E0.6   [2] (⌚..⌛)    watch..hourglass done",
			"1F600         ; Emoji_Presentation   # E1.0   [1] (😀)       grinning face"}) +
			pick("# @missing: 0000..10FFFF  ; Extended_Pictographic ; No\n\n", []string{
				"00A9          ; Extended_Pictographic# E0.6   [1] (©️)       copyright", "203C          ; Extended_Pictographic# E0.6   [1] (‼️)       double exclamation mark",
				"231A..231B    ; Extended_Pictographic# E0.6   [2] (⌚..⌛)    watch..hourglass done", "1F600..1F64F  ; Extended_Pictographic# E1.0  [80] (😀..🙏)    grinning face..folded hands"})
	}
	return map[string]string{
		"13.0.0/EastAsianWidth.txt": eaw("13.0.0"), "14.0.0/EastAsianWidth.txt": eaw("14.0.0"),
		"13.0.0/emoji/emoji-data.txt": emoji("13.0"), "14.0.0/emoji/emoji-data.txt": emoji("14.0"),
		"14.0.0/auxiliary/GraphemeBreakProperty.txt": pick("# GraphemeBreakProperty-14.0.0.txt\n\n", []string{
			"0600..0605    ; Prepend # Cf   [6] ARABIC NUMBER SIGN..ARABIC NUMBER MARK ABOVE", "000D          ; CR # Cc       <control-000D>",
			"000A          ; LF # Cc       <control-000A>", "0300..036F    ; Extend # Mn [112] COMBINING GRAVE ACCENT..COMBINING LATIN SMALL LETTER X",
			"1F1E6..1F1FF  ; Regional_Indicator # So  [26] REGIONAL INDICATOR SYMBOL LETTER A..REGIONAL INDICATOR SYMBOL LETTER Z",
			"1100..115F    ; L # Lo  [96] HANGUL CHOSEONG KIYEOK..HANGUL CHOSEONG FILLER", "200D          ; ZWJ # Cf       ZERO WIDTH JOINER"}),
	}
}
