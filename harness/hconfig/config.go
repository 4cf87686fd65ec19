// Package hconfig checks how settings reach the configuration.
package hconfig

import (
	"strconv"
	"strings"

	"github.com/dgraph-io/badger/v4/options"
	"github.com/spf13/cobra"

	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symconf"
)

// setting is one setting: its documented default and the field it belongs to.
type setting struct {
	key  string
	kind byte // s string, i 64-bit integer, n 32-bit integer, b boolean, f float
	s    string
	n    int64
	b    bool
	f    float64
	get  func(c *config.Config) setting
}

func str(s string) setting    { return setting{s: s} }
func num(n int64) setting     { return setting{n: n} }
func yes(b bool) setting      { return setting{b: b} }
func float(f float64) setting { return setting{f: f} }

type cf = *config.Config

var settings = []setting{
	{key: "profiling.enabled", kind: 'b', get: func(c cf) setting { return yes(c.Profiling.Enabled) }},
	{key: "profiling.port", kind: 'n', n: 6060, get: func(c cf) setting { return num(int64(c.Profiling.Port)) }},
	{key: "prometheus.enabled", kind: 'b', get: func(c cf) setting { return yes(c.Prometheus.Enabled) }},
	{key: "logging.level", kind: 's', s: "warning", get: func(c cf) setting { return str(c.Logging.LogLevel) }},
	{key: "http.port", kind: 's', s: "8000", get: func(c cf) setting { return str(c.Http.Port) }},
	{key: "grpc.address", kind: 's', get: func(c cf) setting { return str(c.Grpc.Address) }},
	{key: "raft.address", kind: 's', s: "localhost:9000", get: func(c cf) setting { return str(c.Raft.Address) }},
	{key: "storage.data_dir", kind: 's', s: "data", get: func(c cf) setting { return str(c.Storage.DataDir) }},
	{key: "storage.gc_interval", kind: 'i', n: 300, get: func(c cf) setting { return num(c.Storage.GCInterval) }},
	{key: "storage.gc_discard_ratio", kind: 'f', f: 0.7, get: func(c cf) setting { return float(c.Storage.GCDiscardRatio) }},
	{key: "storage.compression", kind: 's', get: func(c cf) setting { return str(c.Storage.Compression) }},
	{key: "storage.zstd_compression_level", kind: 'i', get: func(c cf) setting { return num(int64(c.Storage.ZSTDCompressionLevel)) }},
	{key: "storage.block_cache_size", kind: 'i', get: func(c cf) setting { return num(c.Storage.BlockCacheSize) }},
	{key: "storage.index_cache_size", kind: 'i', get: func(c cf) setting { return num(c.Storage.IndexCacheSize) }},
	{key: "storage.base_table_size", kind: 'i', get: func(c cf) setting { return num(c.Storage.BaseTableSize) }},
	{key: "storage.num_compactors", kind: 'i', get: func(c cf) setting { return num(int64(c.Storage.NumCompactors)) }},
	{key: "storage.num_level_zero_tables", kind: 'i', get: func(c cf) setting { return num(int64(c.Storage.NumLevelZeroTables)) }},
	{key: "storage.num_level_zero_tables_stall", kind: 'i', get: func(c cf) setting { return num(int64(c.Storage.NumLevelZeroTablesStall)) }},
	{key: "storage.num_memtables", kind: 'i', get: func(c cf) setting { return num(int64(c.Storage.NumMemtables)) }},
	{key: "storage.value_log_file_size", kind: 'i', get: func(c cf) setting { return num(c.Storage.ValueLogFileSize) }},
	{key: "cluster.node_id", kind: 's', s: "node-1", get: func(c cf) setting { return str(c.Cluster.NodeID) }},
	{key: "cluster.service_name", kind: 's', get: func(c cf) setting { return str(c.Cluster.ServiceName) }},
	{key: "cluster.join_addr", kind: 's', get: func(c cf) setting { return str(c.Cluster.JoinAddr) }},
	{key: "queue.acknowledgement_check_interval", kind: 'i', n: 1, get: func(c cf) setting { return num(c.Queue.AcknowledgementCheckInterval) }},
	{key: "queue.acknowledgement_timeout", kind: 'i', n: 60, get: func(c cf) setting { return num(c.Queue.AcknowledgementTimeout) }},
	{key: "queue.stats.window_side", kind: 'i', n: 10, get: func(c cf) setting { return num(int64(c.Queue.QueueStats.WindowSide)) }},
}

// value is any value of a setting; flip chooses among the values of those kinds
// that are not symbolic.
func (x setting) value(from string, flip bool) setting {
	l := x.key + " " + from
	switch x.kind {
	case 's':
		x.s = sym.StrR(l, 3, '!', '~')
	case 'i':
		x.n = sym.I64(l)
	case 'n':
		x.n = sym.I64R(l, -1<<31, 1<<31-1)
	case 'b':
		x.b = flip == (from != "env")
	case 'f':
		x.f = map[string]float64{"flag": 0.25, "env": 0.5, "file": 0.125}[from]
		if flip {
			x.f += 1
		}
	}
	return x
}

func (x setting) text() string {
	switch x.kind {
	case 's':
		return x.s
	case 'b':
		return strconv.FormatBool(x.b)
	case 'f':
		return strconv.FormatFloat(x.f, 'f', -1, 64)
	}
	return strconv.FormatInt(x.n, 10)
}

func (x setting) any() any {
	switch x.kind {
	case 's':
		return x.s
	case 'b':
		return x.b
	case 'f':
		return x.f
	}
	return int(x.n)
}

func (x setting) same(y setting) bool {
	switch x.kind {
	case 's':
		return sym.StrEq(x.s, y.s)
	case 'b':
		return x.b == y.b
	case 'f':
		return x.f == y.f
	}
	return x.n == y.n
}

const (
	fromFlag = 1 << iota
	fromEnv
	fromFile
)

// load starts the program and loads its configuration.
func load(args []string, flags map[string]string) *config.Config {
	symconf.Write()
	ran := 0
	var c *config.Config
	cmd := config.InitCobraCommand(func(cmd *cobra.Command, args []string) {
		ran++
		var err error
		c, err = config.LoadConfig()
		sym.Assert(err == nil, "valid settings are refused")
	})
	cmd.SetArgs(args)
	for _, x := range settings {
		if v, ok := flags[x.key]; ok {
			f := cmd.Flags().Lookup(x.key)
			sym.Assert(f != nil, "a documented flag is missing: "+x.key)
			sym.Assert(cmd.Flags().Set(x.key, v) == nil, "a valid flag value is refused: "+x.key)
		}
	}
	err := cmd.Execute()
	sym.Assert(err == nil, "the program does not start")
	sym.Assert(ran == 1 && c != nil, "the program does not run once")
	return c
}

// give sets the settings of the given sources and returns what must come out:
// a flag before an environment variable before the file before the default.
func give(x setting, from int, flip bool, flags map[string]string, file string) setting {
	r := x
	if from&fromFile != 0 {
		r = x.value("file", flip)
		symconf.File(file, x.key, r.any())
	}
	if from&fromEnv != 0 {
		r = x.value("env", flip)
		symconf.Env(strings.ToUpper(x.key), r.text())
	}
	if from&fromFlag != 0 {
		r = x.value("flag", flip)
		flags[x.key] = r.text()
	}
	return r
}

func check(c *config.Config, want []setting) {
	for _, w := range want {
		sym.Assert(w.same(w.get(c)), "setting "+w.key+" has the wrong value")
	}
}

// Every setting is given in every combination of sources at once (flag,
// environment, file or none; any string of 3 printable characters, any number of
// its width, two values of booleans and ratios): each field has the value of the
// first source that gives its own setting.
func C30_all() {
	symconf.Start()
	defer symconf.End()
	from := sym.Choose("sources", 8)
	flip := sym.Choose("values", 2) == 1
	flags := map[string]string{}
	var want []setting
	for _, x := range settings {
		want = append(want, give(x, from, flip, flags, "config.yaml"))
	}
	c := load([]string{}, flags)
	check(c, want)
	sym.Reach("all settings")
}

// One setting, any, is given by any combination of sources and all others are
// not: it has its value and every other its documented default.
func C30_each() {
	symconf.Start()
	defer symconf.End()
	k := sym.Choose("setting", len(settings))
	from := 1 + sym.Choose("sources", 7)
	flags := map[string]string{}
	var want []setting
	for i, x := range settings {
		if i == k {
			x = give(x, from, true, flags, "config.yaml")
		}
		want = append(want, x)
	}
	c := load([]string{}, flags)
	check(c, want)
	sym.Reach("one setting")
}

// With --config (its value as a separate argument or not) the settings of that
// file count, also when a default file exists, and flags and the environment
// still come first.
func C30_file() {
	symconf.Start()
	defer symconf.End()
	from := fromFile | sym.Choose("sources", 4)
	other := sym.Bool("default file exists")
	flags := map[string]string{}
	var want []setting
	for _, x := range settings {
		if other {
			symconf.File("config.yaml", x.key, x.value("default", false).any())
		}
		want = append(want, give(x, from, true, flags, "given.yaml"))
	}
	args := []string{"--config=" + symconf.Path("given.yaml")}
	if sym.Bool("separate argument") {
		args = []string{"--config", symconf.Path("given.yaml")}
	}
	c := load(args, flags)
	check(c, want)
	sym.Reach("given file")
}

// The compression of the storage is the named one, and none for any other name
// (any name of up to 6 characters).
func C30_compression() {
	s := sym.Str("name", sym.Choose("length", 7))
	sc := config.StorageConfig{Compression: s}
	got := sc.CompressionType()
	want := options.None
	if sym.StrEq(s, "snappy") {
		want = options.Snappy
	} else if sym.StrEq(s, "zstd") {
		want = options.ZSTD
	}
	sym.Assert(got == want, "wrong compression")
	sym.Reach("compression")
}
