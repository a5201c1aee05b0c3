package conft

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/ref"
)

// genMeta draws a metadata dictionary and the fields its line should show.
func genMeta(rt *rapid.T) (ref.Dict, string, int, int) {
	d := ref.Dict{}
	if rapid.IntRange(0, 3).Draw(rt, "extras") == 0 {
		d = ref.GenDict(2).Draw(rt, "extra")
	}
	name, length, piece := "name err", 0, 0
	delete(d, "name")
	delete(d, "length")
	delete(d, "piece length")
	switch rapid.IntRange(0, 5).Draw(rt, "name") {
	case 0:
	case 1:
		d["name"] = rapid.OneOf(rapid.Map(ref.GenInt(), func(i int) ref.Value { return i }), rapid.Map(ref.GenList(1), func(l ref.List) ref.Value { return l }), rapid.Map(ref.GenDict(1), func(x ref.Dict) ref.Value { return x })).Draw(rt, "mistyped")
	default:
		name = rapid.OneOf(rapid.StringMatching(`[a-zA-Z0-9 ._|-]{0,40}`), rapid.StringMatching(`[a-zA-Z0-9 ._|-]{100,400}`), rapid.SampledFrom([]string{"", "%s%d%!", "100%", "||1||2", "日本語", "name err", "\x1b[0m"}),
			rapid.Map(rapid.SliceOfN(rapid.ByteRange(32, 255), 0, 60), func(b []byte) string { return string(b) })).Draw(rt, "n")
		d["name"] = name
	}
	num := func(k string, to *int) {
		switch rapid.IntRange(0, 5).Draw(rt, k) {
		case 0:
		case 1:
			d[k] = rapid.OneOf(rapid.Map(ref.GenStr(), func(i string) ref.Value { return i }), rapid.Map(ref.GenList(1), func(l ref.List) ref.Value { return l }), rapid.Map(ref.GenDict(1), func(x ref.Dict) ref.Value { return x })).Draw(rt, "mistyped")
		default:
			*to = ref.GenInt().Draw(rt, "v")
			d[k] = *to
		}
	}
	num("length", &length)
	num("piece length", &piece)
	if rapid.IntRange(0, 2).Draw(rt, "pieces") > 0 {
		d["pieces"] = string(rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(rt, "hashes"))
	}
	return d, name, length, piece
}

// genJunk draws contents a peer can have stored that are no dictionary.
func genJunk(rt *rapid.T) []byte {
	d, _, _, _ := genMeta(rt)
	b := ref.Encode(d)
	switch rapid.IntRange(0, 4).Draw(rt, "junk") {
	case 0:
		return b[:len(b)-1]
	case 1:
		return append(b, 'e')
	case 2:
		return ref.Encode(ref.List{d})
	case 3:
		return bytes.Repeat([]byte(rapid.SampledFrom([]string{"l", "d1:k", "d4:namel"}).Draw(rt, "level")), h.Wide(1, 4000000).Draw(rt, "levels"))
	}
	return append([]byte{'?'}, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "bytes")...)
}

// lines runs the torrent command in dir and returns the lines with fields.
func lines(dir, path string) ([]string, error) {
	return output(node.Command(dir, "torrent", path))
}

// linesWithin is lines with at most files descriptors open at a time.
func linesWithin(files int, dir, path string) ([]string, error) {
	c := node.Command(dir, "torrent", path)
	c.Args = append([]string{"sh", "-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, files), c.Path}, c.Args[1:]...)
	c.Path = "/bin/sh"
	return output(c)
}

func output(c *exec.Cmd) ([]string, error) {
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	var err error
	if !h.Within(60*time.Second, func() { err = c.Run() }) {
		c.Process.Kill()
		return nil, fmt.Errorf("the command does not end")
	}
	if err != nil {
		return nil, fmt.Errorf("the command failed: %v: %.800s", err, errb.String())
	}
	var r []string
	for _, l := range strings.Split(out.String(), "\r\n") {
		if strings.Count(l, "||") >= 3 {
			r = append(r, l)
		}
	}
	return r, nil
}

func TestC27(t *testing.T) {
	// a crawler that runs with the same configuration, for some of the cases
	running, err := node.Start(node.Opts{})
	if err != nil {
		t.Fatalf("%v", err)
	}
	defer running.Kill()
	idle := node.Scratch()
	defer os.RemoveAll(idle)
	node.WriteJSON(filepath.Join(idle, "conf/config.json"), node.Conf(node.Opts{}, netx.FreeUDPPort()))
	where := func(rt *rapid.T) (string, string) {
		if rapid.Bool().Draw(rt, "crawler runs") {
			return running.Dir, "next to a crawler"
		}
		return idle, "alone"
	}
	h.Check(t, "file", "one stored dictionary with drawn name, length, piece length (present, absent or of another type) and extra fields under a drawn file name, one in ten no dictionary at all; alone or in the directory of a running crawler; non-trivial: a field present", 450, 6000,
		func(rt *rapid.T, c *h.Case) {
			dir, text := where(rt)
			d, name, length, piece := genMeta(rt)
			rel := rapid.SampledFrom([]string{"a.torrent", "x/y.torrent", "noext", "b.TORRENT", "with space.torrent", "./c.torrent", "100%d.torrent"}).Draw(rt, "file")
			abs := rapid.Bool().Draw(rt, "absolute")
			c.Input("%s, %q: %q", text, rel, ref.Encode(d))
			c.NonTrivial(name != "name err" || length != 0 || piece != 0)
			tdir := filepath.Join(dir, "t")
			defer os.RemoveAll(tdir)
			full := filepath.Join(tdir, rel)
			arg := "t/" + rel
			if abs {
				arg = full
			}
			os.MkdirAll(filepath.Dir(full), 0777)
			b := ref.Encode(d)
			if rapid.IntRange(0, 9).Draw(rt, "no dictionary") == 0 {
				b = genJunk(rt)
				name, length, piece = "name err", 0, 0
				c.Input("instead %d bytes %.40q", len(b), b)
			}
			if err := os.WriteFile(full, b, 0666); err != nil {
				h.Infra("%v", err)
			}
			got, err := lines(dir, arg)
			if err != nil {
				rt.Fatal(err)
			}
			ok := len(got) == 1
			if ok {
				ok = false
				// the file may be named by its path or its base name
				for _, f := range []string{arg, full, filepath.Base(full)} {
					ok = ok || got[0] == fmt.Sprintf("%s||%s||%d||%d", name, f, length, piece)
				}
			}
			if !ok {
				rt.Fatalf("the command printed %q, want one line with %q, the file %q, %d and %d", got, name, arg, length, piece)
			}
		})
	h.Check(t, "directory", "a directory of 0 to 12 entries: stored dictionaries *.torrent, one in eight of other contents, files of other names (any contents), subdirectories with drawn names (also *.torrent) and contents; exactly one line per regular *.torrent file; non-trivial: at least two of them and another entry", 600, 8000,
		func(rt *rapid.T, c *h.Case) {
			dir, text := where(rt)
			tdir := filepath.Join(dir, "t")
			if err := os.Mkdir(tdir, 0777); err != nil {
				h.Infra("%v", err)
			}
			defer os.RemoveAll(tdir)
			want := map[string]int{}
			files, others := 0, 0
			write := func(p string, b []byte) {
				if err := os.WriteFile(p, b, 0666); err != nil {
					h.Infra("%v", err)
				}
			}
			for i := rapid.IntRange(0, 12).Draw(rt, "entries"); i > 0; i-- {
				base := rapid.OneOf(rapid.StringMatching(`[a-f0-9]{1,8}`), rapid.SampledFrom([]string{"", ".", "x.torrent", "a b", "100%s", "ü", ".torrent", "a.torrent.part"})).Draw(rt, "base")
				ext := rapid.SampledFrom([]string{".torrent", ".torrent", ".torrent", ".torrent", ".TORRENT", ".torrent~", ".txt", "torrent", "", ".torrents"}).Draw(rt, "ext")
				f := base + ext
				if f == "" || f == "." || f == ".." {
					continue
				}
				full := filepath.Join(tdir, f)
				if _, err := os.Lstat(full); err == nil {
					continue
				}
				d, name, length, piece := genMeta(rt)
				isDir := rapid.IntRange(0, 5).Draw(rt, "dir") == 0
				text += fmt.Sprintf(" %q", f)
				switch {
				case isDir:
					text += " (directory)"
					os.Mkdir(full, 0777)
					if rapid.Bool().Draw(rt, "inside") {
						write(filepath.Join(full, "in.torrent"), ref.Encode(d))
					}
					others++
				case strings.HasSuffix(f, ".torrent") && rapid.IntRange(0, 7).Draw(rt, "stored") == 0:
					b := genJunk(rt)
					text += fmt.Sprintf(" (%d bytes %.40q, no dictionary)", len(b), b)
					write(full, b)
					want[fmt.Sprintf("name err||%s||0||0", f)]++
					files++
				case strings.HasSuffix(f, ".torrent"):
					write(full, ref.Encode(d))
					want[fmt.Sprintf("%s||%s||%d||%d", name, f, length, piece)]++
					files++
				default:
					b := ref.Encode(d)
					if rapid.Bool().Draw(rt, "garbage") {
						b = b[:len(b)/2]
					}
					write(full, b)
					others++
				}
			}
			arg := rapid.SampledFrom([]string{"t", "t/", "./t", tdir}).Draw(rt, "arg")
			c.Input("%s, %s:%s", text, arg, "")
			c.NonTrivial(files >= 2 && others >= 1)
			got, err := lines(dir, arg)
			if err != nil {
				rt.Fatal(err)
			}
			for _, l := range got {
				if want[l]--; want[l] < 0 {
					rt.Fatalf("surplus line %q; all were %q", l, got)
				}
			}
			for l, n := range want {
				if n > 0 {
					rt.Fatalf("no line %q; printed were %q", l, got)
				}
			}
		})
	h.Check(t, "many", "a directory of 1 to 600 stored dictionaries, some of up to 3 MB, read by a process that may have 48 descriptors; all lines must come; non-trivial: more than 48 files or one over 1 MB", 36, 400,
		func(rt *rapid.T, c *h.Case) {
			dir, text := where(rt)
			tdir := filepath.Join(dir, "t")
			if err := os.Mkdir(tdir, 0777); err != nil {
				h.Infra("%v", err)
			}
			defer os.RemoveAll(tdir)
			n := rapid.OneOf(rapid.IntRange(1, 60), rapid.IntRange(40, 600)).Draw(rt, "files")
			want := map[string]int{}
			big := 0
			for i := 0; i < n; i++ {
				d := ref.Dict{"name": fmt.Sprintf("n%d", i), "length": i, "piece length": 2 * i}
				// the largest sizes are few, they cost time
				if i < 3 {
					k := rapid.OneOf(rapid.IntRange(0, 2000), rapid.SampledFrom([]int{4096, 32768, 65536, 1 << 20, 3 << 20})).Draw(rt, "pieces")
					d["pieces"] = strings.Repeat("p", k)
					big = max(big, k)
				}
				f := fmt.Sprintf("%040d.torrent", i)
				if err := os.WriteFile(filepath.Join(tdir, f), ref.Encode(d), 0666); err != nil {
					h.Infra("%v", err)
				}
				want[fmt.Sprintf("n%d||%s||%d||%d", i, f, i, 2*i)]++
			}
			c.Input("%s, %d files, one of %d bytes", text, n, big)
			c.NonTrivial(n > 48 || big >= 1<<20)
			got, err := linesWithin(48, dir, "t")
			if err != nil {
				rt.Fatal(err)
			}
			for _, l := range got {
				if want[l]--; want[l] < 0 {
					rt.Fatalf("surplus line %q", l)
				}
			}
			for l, k := range want {
				if k > 0 {
					rt.Fatalf("no line %q among the %d printed", l, len(got))
				}
			}
		})
}
