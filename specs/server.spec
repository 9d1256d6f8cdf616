// The demo server (C22): which files it opens.
package "github.com/flowchartsman/aql/wasm/aqlparse/server"

purepkg "path/filepath"

// names of the files opened so far
ghostvar opened seq string
touches opened "os", "os/exec", "io/ioutil", "io/fs", "net/http", "syscall", "html/template", "text/template", "embed"

extern "os.OpenFile"(name, flag, perm)(f, err) { modifies opened ensures opened == old(opened) ++ unit(name) }
extern "os.Open"(name)(f, err) { modifies opened ensures opened == old(opened) ++ unit(name) }

// the only names opened since then are "" (which names no file) and p
def onlyopened(was seq string, allowed bool, p string) bool =
	len(opened) >= len(was) && (forall i int :: {opened[i]} 0 <= i && i < len(was) ==> opened[i] == was[i])
	&& (forall i int :: {opened[i]} len(was) <= i && i < len(opened) ==> opened[i] == "" || allowed && opened[i] == p)

func DiskFS.Open(d, name)(f, err) {
	tags C22
	requires d != nil
	modifies opened
	ensures [C22 "opens what was added under that name, or nothing"] onlyopened(old(opened), d.files != nil && dom(d.files)[name], mval(d.files)[name])
	ensures [C22 "opens the file added"] d.files != nil && dom(d.files)[name] ==> len(opened) > len(old(opened)) && opened[len(opened)-1] == mval(d.files)[name]
}

// it panics when the working directory is not known
func DiskFS.AddFile(d, loc)() {
	tags C22
	maypanic
	requires d != nil
	modifies d.files, contents(d.files)
	ensures [C22 "added under its base name"] d.files != nil && dom(d.files)[filepath.Base(filepath.Abs(loc))] && mval(d.files)[filepath.Base(filepath.Abs(loc))] == filepath.Abs(loc)
	ensures [C22 "nothing else added"] forall k string :: {dom(d.files)[k]} k != filepath.Base(filepath.Abs(loc)) ==> dom(d.files)[k] == (old(d.files) != nil && old(dom(d.files)[k])) && (dom(d.files)[k] ==> mval(d.files)[k] == old(mval(d.files)[k]))
}

// ---- the program -------------------------------------------------------------

extern "log.Fatal"(v)() { noreturn }
extern "log.Println"(v)() { }
extern "log.SetFlags"(n)() { }
extern "net/http.HandleFunc"(p, h)() { }
extern "net/http.ListenAndServe"(a, h)(err) { }

// a file system that serves the allow-list only
fun allowlist(f http.FileSystem) bool
extern "net/http.FS"(f)(r) { ensures is(f,*DiskFS) ==> allowlist(r) }
extern "net/http.FileServer"(f)(r) { requires [C22 "serves the allow-list"] allowlist(f) }

func main()() {
	tags C22
	maypanic
}

// the handler: the index page for "/", the allow-list for the rest
extern "net/http.ServeContent"(w, r, name, t, f)() { }
// what the file server opens, it opens through DiskFS.Open
iface http.Handler.ServeHTTP(h, w, r)() { assumed }

func main$1(w, r)() {
	tags C22
	maypanic
	modifies opened
	ensures [C22 "opens the index page only"] onlyopened(old(opened), true, filepath.Join(os.Args[1], "index.html"))
}
