// mktables writes the frozen snapshot of the bundled directive sets (harness/tables.txt). It was run once, on the
// pinned commit; the checks never run it. Names come from stdin (all string keys of the tables in the source).
package main

import (
	"bufio"
	"fmt"
	"os"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func main() {
	sets := []struct {
		name string
		f    cp.MatchFunc
	}{
		{"app_protect_v4", cp.MatchAppProtectWAFv4}, {"app_protect_v5", cp.MatchAppProtectWAFv5}, {"geoip2", cp.MatchGeoip2Latest},
		{"headers_more", cp.MatchHeadersMoreLatest}, {"lua", cp.MatchLuaLatest}, {"njs", cp.MatchNjsLatest}, {"otel", cp.MatchOtelLatest},
		{"plus_r30", cp.MatchNginxPlusR30}, {"plus_r31", cp.MatchNginxPlusR31}, {"plus_r33", cp.MatchNginxPlusR33}, {"plus_r34", cp.MatchNginxPlusR34},
		{"plus_r35", cp.MatchNginxPlusR35}, {"plus_r36", cp.MatchNginxPlusR36}, {"plus_r37", cp.MatchNginxPlusR37}, {"plus_latest", cp.MatchNginxPlusLatest},
		{"oss_124", cp.MatchOss124}, {"oss_126", cp.MatchOss126}, {"oss_latest", cp.MatchOssLatest},
	}
	var names []string
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		names = append(names, sc.Text())
	}
	for _, s := range sets {
		for _, n := range names {
			ms, ok := s.f(n)
			if !ok {
				continue
			}
			fmt.Print(s.name, " ", n)
			for _, m := range ms {
				fmt.Printf(" %x", m)
			}
			fmt.Println()
		}
	}
}
