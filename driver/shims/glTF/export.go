package glTF

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"

	"geGoMetry/r3"
	"geGoMetry/shape"
	vf "@MOD@/zzverif"
)

type vfM struct {
	V   [][3]vf.F `json:"v"`
	I   []uint32  `json:"i"`
	Aux bool      `json:"aux"` // with normals and texture coordinates
}

// slices with room behind them, so that a write past the end is seen
func vfBuild(m vfM) shape.Mesh {
	var s shape.Mesh
	s.Vertices = make([]r3.Vector, 0, len(m.V)+3)
	for _, v := range m.V {
		s.Vertices = append(s.Vertices, r3.Vector{X: float64(v[0]), Y: float64(v[1]), Z: float64(v[2])})
	}
	s.Indices = append(make([]uint32, 0, len(m.I)+5), m.I...)
	if m.Aux {
		s.Normals = make([][3]float64, len(m.V))
		s.TexCoords = make([][2]float64, len(m.V))
		for i := range s.Normals {
			s.Normals[i] = [3]float64{float64(i), 1, 2}
			s.TexCoords[i] = [2]float64{float64(i), 3}
		}
	}
	return s
}

func vfSame(a, b shape.Mesh) bool {
	return reflect.DeepEqual(a.Vertices, b.Vertices) && reflect.DeepEqual(a.Indices, b.Indices) &&
		reflect.DeepEqual(a.Normals, b.Normals) && reflect.DeepEqual(a.TexCoords, b.TexCoords) &&
		reflect.DeepEqual(a.Vertices[:cap(a.Vertices)], b.Vertices[:cap(b.Vertices)]) &&
		reflect.DeepEqual(a.Indices[:cap(a.Indices)], b.Indices[:cap(b.Indices)])
}

// vfExport calls Export and tells whether a failure was reported (by a panic
// or by an error result).
func vfExport(m shape.Mesh, path string) (failed string) {
	defer func() {
		if e := recover(); e != nil {
			failed = fmt.Sprint("panic: ", e)
		}
	}()
	for _, r := range reflect.ValueOf(Export).Call([]reflect.Value{reflect.ValueOf(m), reflect.ValueOf(path)}) {
		if e, ok := r.Interface().(error); ok && e != nil {
			return "error: " + e.Error()
		}
	}
	return ""
}

// vfRoom calls f while files cannot be written beyond n bytes, as on a device
// which becomes full
func vfRoom(n int, f func() string) string {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic("verif: " + err.Error())
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); err != nil {
		panic("verif: " + err.Error())
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	return f()
}

type vfStep struct {
	Act  string `json:"act"` // export, plant, delete
	Path string `json:"path"`
	Mesh int    `json:"mesh"`
	Data int    `json:"data"` // length of the planted content
	Room int    `json:"room"` // export: the length from which on files cannot be written, if not 0
}

func init() {
	vf.Register("history", func(a json.RawMessage) interface{} {
		var q struct {
			Meshes []vfM    `json:"meshes"`
			Dirs   []string `json:"dirs"`
			Steps  []vfStep `json:"steps"`
			Final  bool     `json:"final"` // look at the files in the end only
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		root, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "h")
		if err != nil {
			panic("verif: " + err.Error())
		}
		defer os.RemoveAll(root)
		for _, d := range q.Dirs {
			if err := os.MkdirAll(filepath.Join(root, d), 0755); err != nil {
				panic("verif: " + err.Error())
			}
		}
		meshes, copies := []shape.Mesh{}, []shape.Mesh{}
		for _, m := range q.Meshes {
			meshes, copies = append(meshes, vfBuild(m)), append(copies, vfBuild(m))
		}
		contents := map[string]string{}
		steps := []interface{}{}
		for si, s := range q.Steps {
			p := s.Path
			if !strings.HasPrefix(p, "/dev/") && p != "" {
				p = root + "/" + p // as it is
			}
			failed, same := "", true
			switch s.Act {
			case "export":
				if s.Room > 0 {
					failed = vfRoom(s.Room, func() string { return vfExport(meshes[s.Mesh], p) })
				} else {
					failed = vfExport(meshes[s.Mesh], p)
				}
				same = vfSame(meshes[s.Mesh], copies[s.Mesh])
			case "plant":
				if err := os.WriteFile(p, []byte(strings.Repeat("x", s.Data)), 0644); err != nil {
					panic("verif: " + err.Error())
				}
			case "delete":
				os.Remove(p)
			}
			files := [][2]string{}
			if !q.Final || si == len(q.Steps)-1 {
				filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
					if err == nil && !d.IsDir() {
						b, err := os.ReadFile(path)
						if err != nil {
							panic("verif: " + err.Error())
						}
						h := sha256.Sum256(b)
						k := hex.EncodeToString(h[:8])
						if _, in := contents[k]; !in {
							contents[k] = base64.StdEncoding.EncodeToString(b)
						}
						rel, _ := filepath.Rel(root, path)
						files = append(files, [2]string{rel, k})
					}
					return nil
				})
			}
			steps = append(steps, map[string]interface{}{"failed": failed, "same": same, "files": files})
		}
		return map[string]interface{}{"steps": steps, "contents": contents}
	})
}
