package textsecure

import (
	"fmt"
	"net/url"
)

func zzEscape(s string) string { return url.PathEscape(s) }
func zzDec(n uint32) string    { return fmt.Sprintf("%d", n) }
