package main

func init() {
	const out = "what the tracing library does with the spans; chains that panic; more than two commands at a time; a command that another hook refuses"
	prop("W01", out, []string{"the redis client calls the hook before and after each command and pipeline, as go-redis v7 does (hooks.process)"},
		Entry{Fn: "trace.Middleware", Covers: []string{"traced", "end"}, Bounds: "every kind of tracer, option set and result; arbitrary status; with and without a command or call inside; incoming trace absent, broken or valid"},
		Entry{Fn: "trace.Redis", Covers: []string{"traced", "end"}, Bounds: "every kind of tracer, option set and result; a command, a pipeline of 0-2 commands or two commands at a time, with and without a caller's span"},
		Entry{Fn: "trace.Client", Covers: []string{"traced", "end"}, Bounds: "every kind of tracer, option set and result; arbitrary status"},
	)
	prop("W03", "what the tracing library does with the spans; other methods; paths with escapes; more commands than the bound", []string{"the redis client calls the hook before and after each command and pipeline, as go-redis v7 does (hooks.process)"},
		Entry{Fn: "trace.ServerDetail", Int: true, Quick: P{"len": 1}, Thorough: P{"len": 2}, Bounds: "two methods, every path of up to len letters and digits, with and without query; every status 100..999, option set and outcome; seven outcomes; contents with an arbitrary end of len bytes"},
		Entry{Fn: "trace.ClientDetail", Int: true, Quick: P{"len": 1}, Thorough: P{"len": 2}, Bounds: "as above"},
		Entry{Fn: "trace.RedisDetail", Int: true, Quick: P{"len": 1}, Thorough: P{"len": 4}, Bounds: "a command or a pipeline of 1-3 commands, every option set and outcome, database number of one or three digits; name of the first command of up to len letters and digits; peer, arguments and errors with arbitrary bytes"},
	)
	prop("W02", "what the gRPC reporter does on its connection; identities and servers taken from the environment; an instance that is not configured", nil,
		Entry{Fn: "trace.Identity", Quick: P{"len": 2}, Thorough: P{"len": 4}, Bounds: "every name, namespace and instance of up to len bytes"},
		Entry{Fn: "trace.Grpc", Quick: P{"len": 1}, Thorough: P{"len": 3}, Covers: []string{"refused", "end"}, Bounds: "three servers with any port of one digit, every name, namespace and instance of up to len bytes"},
		Entry{Fn: "trace.Settings", Quick: P{"len": 2}, Thorough: P{"len": 4}, Bounds: "every value of up to len bytes"},
	)
}
