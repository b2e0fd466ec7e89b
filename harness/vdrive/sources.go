package main

import cp "github.com/nginxinc/nginx-go-crossplane"

var sources = map[string]cp.MatchFunc{
	"default": cp.DefaultDirectivesMatchFunc,
	"oss124":  cp.MatchOss124,
	"oss126":  cp.MatchOss126,
	"oss":     cp.MatchOssLatest,
	"plusR30": cp.MatchNginxPlusR30,
	"plusR31": cp.MatchNginxPlusR31,
	"plusR33": cp.MatchNginxPlusR33,
	"plusR34": cp.MatchNginxPlusR34,
	"plusR35": cp.MatchNginxPlusR35,
	"plusR36": cp.MatchNginxPlusR36,
	"plusR37": cp.MatchNginxPlusR37,
	"plus":    cp.MatchNginxPlusLatest,
	"njs":     cp.MatchNjsLatest,
	"lua":     cp.MatchLuaLatest,
	"geoip2":  cp.MatchGeoip2Latest,
	"headers": cp.MatchHeadersMoreLatest,
	"otel":    cp.MatchOtelLatest,
	"wafv4":   cp.MatchAppProtectWAFv4,
	"wafv5":   cp.MatchAppProtectWAFv5,
}

func sourceFn(name string) cp.MatchFunc {
	f, ok := sources[name]
	if !ok {
		fatal("unknown source %q", name)
	}
	return f
}
