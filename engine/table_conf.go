package main

func init() {
	prop("F01", "longer texts than the bound", nil,
		Entry{Fn: "cfg.Secrets", Quick: P{"len": 2}, Thorough: P{"len": 4}, Bounds: "every configuration type, two arbitrary user names and passwords of up to len bytes each, one of each followed by a filling of 0 to 127"},
		Entry{Fn: "cfg.Settings", Bounds: "every configuration type, one setting arbitrary at a time (words of up to two letters, numbers 0-9 and a few others, minutes 1-9 and a few others) and the others distinct"},
	)
	const url = "texts longer than the bound; more than one arbitrary text at a time; what the drivers do with the settings once decoded"
	drv := []string{"the drivers decode their connection strings with mysql.ParseDSN and net/url (as they do)"}
	prop("F02", url, drv,
		Entry{Fn: "cfg.MysqlSettings", Quick: P{"len": 3}, Thorough: P{"len": 5}, Bounds: "arbitrary settings; parameter strings with up to len arbitrary bytes in four shapes"},
		Entry{Fn: "cfg.MysqlDsn", Quick: P{"mode": 0, "len": 2}, Thorough: P{"mode": 0, "len": 4}, Bounds: "connection strings: parameter strings with up to len arbitrary bytes"},
		Entry{Fn: "cfg.MysqlDsn", Quick: P{"mode": 1, "len": 3}, Thorough: P{"mode": 1, "len": 6}, Bounds: "connection strings: user, password or database of up to len arbitrary bytes"},
		Entry{Fn: "cfg.MysqlDsn", Quick: P{"mode": 2}, Bounds: "connection strings: numbers, customizer, tracing"},
		Entry{Fn: "cfg.PgDsn", Quick: P{"mode": 0, "len": 2}, Thorough: P{"mode": 0, "len": 4}, Secs: [2]int{100, 600}, Bounds: "as MysqlDsn"},
		Entry{Fn: "cfg.PgDsn", Quick: P{"mode": 1, "len": 2}, Thorough: P{"mode": 1, "len": 3}, Secs: [2]int{100, 600}, Bounds: "as MysqlDsn"},
		Entry{Fn: "cfg.PgDsn", Quick: P{"mode": 2}, Bounds: "as MysqlDsn"},
		Entry{Fn: "cfg.OracleDsn", Quick: P{"mode": 0, "len": 2}, Thorough: P{"mode": 0, "len": 4}, Secs: [2]int{100, 600}, Bounds: "as MysqlDsn"},
		Entry{Fn: "cfg.OracleDsn", Quick: P{"mode": 1, "len": 2}, Thorough: P{"mode": 1, "len": 3}, Secs: [2]int{100, 600}, Bounds: "as MysqlDsn, also service and sid"},
		Entry{Fn: "cfg.OracleDsn", Quick: P{"mode": 2}, Bounds: "as MysqlDsn, also servers"},
	)
	prop("F03", "what the libraries do with their settings", nil,
		Entry{Fn: "cfg.Http", Bounds: "every trust mode, set of authorities (up to 13 files), client certificate and customizer; arbitrary sizes and timeouts"},
		Entry{Fn: "cfg.NoFile", Bounds: "each file missing in each trust mode"},
		Entry{Fn: "cfg.Redis", Bounds: "arbitrary settings, with and without customizer"},
		Entry{Fn: "cfg.Es", Bounds: "arbitrary settings, one or two addresses, with and without customizer"},
		Entry{Fn: "cfg.MysqlDsn", Quick: P{"mode": 2}, Bounds: "arbitrary pool limits"},
		Entry{Fn: "cfg.PgDsn", Quick: P{"mode": 2}, Bounds: "arbitrary pool limits"},
		Entry{Fn: "cfg.OracleDsn", Quick: P{"mode": 2}, Bounds: "arbitrary pool limits"},
	)
	prop("F05", "databases: how the drivers find out that a server does not answer; other Redis replies to the ping than PONG and an error", nil,
		Entry{Fn: "reach.Databases", Bounds: "six constructors; a server that answers, refuses or hangs up"},
		Entry{Fn: "reach.Redis", Bounds: "a server that answers or not"},
		Entry{Fn: "reach.Es", Bounds: "a server that does not answer, or answers with an arbitrary status from 200 to 599"},
	)
	prop("F04", "longer headers and credentials than the bound; what the profile handler itself serves", nil,
		Entry{Fn: "cfg.Credentials", Quick: P{"len": 3}, Thorough: P{"len": 6}, Covers: []string{"open", "refused", "closed"}, Bounds: "arbitrary configured and presented user (one byte) and password (up to len bytes)"},
		Entry{Fn: "cfg.Headers", Quick: P{"len": 5}, Thorough: P{"len": 9}, Covers: []string{"open", "refused"}, Bounds: "arbitrary header of up to len bytes after four beginnings"},
		Entry{Fn: "cfg.Credentials", Quick: P{"len": 2, "gin": 1}, Thorough: P{"len": 6, "gin": 1}, Covers: []string{"open", "refused", "closed"}, Bounds: "the same for the gin filter"},
		Entry{Fn: "cfg.Again", Quick: P{"requests": 2}, Thorough: P{"requests": 3}, Covers: []string{"open", "refused"}, Bounds: "two endpoints with arbitrary passwords (one byte), any sequence of `requests` requests to either with arbitrary credentials or none"},
		Entry{Fn: "cfg.Again", Quick: P{"requests": 2, "gin": 1}, Thorough: P{"requests": 3, "gin": 1}, Covers: []string{"open", "refused"}, Bounds: "the same for the gin filter"},
		Entry{Fn: "cfg.Rates", Bounds: "an arbitrary fraction of contention, blocking or not"},
		Entry{Fn: "cfg.Rates", Quick: P{"gin": 1}, Bounds: "the same for the gin filter"},
		Entry{Fn: "cfg.Headers", Quick: P{"len": 4, "gin": 1}, Thorough: P{"len": 9, "gin": 1}, Covers: []string{"open", "refused"}, Bounds: "the same for the gin filter"},
	)
}
