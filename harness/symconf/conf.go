// Package symconf models what a process reads its settings from: environment
// variables and configuration files. The parsing of a file is outside (its
// content is given as a map); everything between that and the decoded struct is
// viper's and pflag's own code.
package symconf

import (
	"encoding/json"
	"errors"
	"io"
	"log/slog"
	"os"
	"path/filepath"
	"strings"

	"github.com/spf13/afero"
	"github.com/spf13/viper"

	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

const work = "/work"

var (
	envs  map[string]string
	files map[string]map[string]any

	dir, old string
)

func init() {
	symenv.OnReset(func() {
		envs, files = map[string]string{}, map[string]map[string]any{}
	})
}

// Start begins with an empty environment and an empty working directory.
func Start() {
	envs, files = map[string]string{}, map[string]map[string]any{}
	if sym.Symbolic() {
		return
	}
	viper.Reset()
	var err error
	if old, err = os.Getwd(); err != nil {
		panic(err)
	}
	if dir, err = os.MkdirTemp("", "symconf"); err != nil {
		panic(err)
	}
	if err = os.Chdir(dir); err != nil {
		panic(err)
	}
}

// End undoes Start.
func End() {
	if sym.Symbolic() {
		return
	}
	for k := range envs {
		os.Unsetenv(k)
	}
	os.Chdir(old)
	if strings.Contains(dir, "symconf") {
		os.RemoveAll(dir)
	}
}

// Env sets an environment variable.
func Env(k, v string) {
	envs[k] = v
	if !sym.Symbolic() {
		os.Setenv(k, v)
	}
}

// File sets a setting (section.name) in a configuration file of the working
// directory.
func File(name, key string, v any) {
	p := Path(name)
	m := files[p]
	if m == nil {
		m = map[string]any{}
		files[p] = m
	}
	i := strings.Index(key, ".")
	s, _ := m[key[:i]].(map[string]any)
	if s == nil {
		s = map[string]any{}
		m[key[:i]] = s
	}
	s[key[i+1:]] = v
}

// Write makes the files exist.
func Write() {
	if sym.Symbolic() {
		return
	}
	for p, m := range files {
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, b, 0o600); err != nil {
			panic(err)
		}
	}
}

// Path is the path of a file of the working directory.
func Path(name string) string {
	if sym.Symbolic() {
		return work + "/" + name
	}
	return filepath.Join(dir, name)
}

//sym:replace os.LookupEnv
func LookupEnv(k string) (string, bool) {
	if !sym.Symbolic() {
		return os.LookupEnv(k)
	}
	v, ok := envs[k]
	return v, ok
}

//sym:replace os.Getenv
func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}

//sym:replace github.com/spf13/viper.absPathify
func absPathify(logger *slog.Logger, p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return filepath.Join(work, p)
}

//sym:replace github.com/spf13/viper.exists
func exists(fs afero.Fs, p string) (bool, error) {
	_, ok := files[p]
	return ok, nil
}

//sym:replace github.com/spf13/afero.ReadFile
func ReadFile(fs afero.Fs, p string) ([]byte, error) {
	if _, ok := files[p]; !ok {
		return nil, errors.New("no such file")
	}
	return []byte(p), nil
}

//sym:replace (*github.com/spf13/viper.Viper).unmarshalReader
func unmarshalReader(v *viper.Viper, in io.Reader, c map[string]any) error {
	b, err := io.ReadAll(in)
	if err != nil {
		return err
	}
	for s, m := range files[string(b)] {
		x := map[string]any{}
		for k, y := range m.(map[string]any) {
			x[k] = y
		}
		c[s] = x
	}
	return nil
}
