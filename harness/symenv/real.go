package symenv

import (
	"os"

	"github.com/dgraph-io/badger/v4"
)

var (
	realDirs = map[*badger.DB]string{}
	tmpDirs  []string
)

func realOpen(dir string) *badger.DB {
	if dir == "" {
		d, err := os.MkdirTemp("", "symdb")
		if err != nil {
			panic(err)
		}
		dir = d
		tmpDirs = append(tmpDirs, d)
	}
	db, err := badger.Open(badger.DefaultOptions(dir).WithLogger(nil).WithMemTableSize(8 << 20).WithValueLogFileSize(1 << 21))
	if err != nil {
		panic(err)
	}
	realDirs[db] = dir
	return db
}

func realReopen(db *badger.DB) *badger.DB {
	d := realDirs[db]
	db.Close()
	return realOpen(d)
}

// Cleanup closes and removes the real stores of a replay.
func Cleanup() {
	for db := range realDirs {
		if !db.IsClosed() {
			closeQuiet(db)
		}
	}
	realDirs = map[*badger.DB]string{}
	for _, d := range tmpDirs {
		os.RemoveAll(d)
	}
	tmpDirs = nil
}

func closeQuiet(db *badger.DB) {
	defer func() { recover() }()
	db.Close()
}
