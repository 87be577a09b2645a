From 7e06e2a5082439d0d8632a6196f37fc6090f258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:37 +0000
Subject: [PATCH 01/54] fix: squash: keep the whiteout of a name that is
 re-created as a directory

---
 pkg/squash/vfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2a0c1a5..7312d0f 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -195,7 +195,10 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 			} else {
 				delete(f.parent.children, strings.TrimPrefix(basename, ".wh."))
 			}
-		} else {
+		} else if f.header.Typeflag != tar.TypeDir {
+			// A non-directory replaces whatever is below it, so the whiteout marker is
+			// redundant.  A directory on the other hand would be merged with a
+			// directory in a lower layer, so in that case the marker must be kept.
 			delete(f.parent.children, ".wh."+basename)
 		}
 	}
-- 
2.43.0


From 9b54a567a5581b4abb8af3e61b1c4bfae0a042f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:38 +0000
Subject: [PATCH 02/54] fix: squash: don't insist on USTAR for entries renamed
 through symlinks

---
 pkg/squash/vfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 7312d0f..c691640 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -214,6 +214,11 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		}
 		hdr := *f.header // shallow copy
 		hdr.Name = name
+		if hdr.Format == tar.FormatUSTAR {
+			// The name may have changed (resolving symlinks); don't insist on a format
+			// that might not be able to encode the new name.
+			hdr.Format = tar.FormatUnknown
+		}
 		if err := tarWriter.WriteHeader(&hdr); err != nil {
 			return err
 		}
-- 
2.43.0


From ff6406d9536f946d35c81fc3275a088e455084c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:38 +0000
Subject: [PATCH 03/54] fix: squash: report nested symlink loops as ELOOP
 instead of recursing forever

---
 pkg/squash/vfs.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index c691640..be74041 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -27,7 +27,15 @@ type fsfile struct {
 	body   []byte
 }
 
+// maxSymlinks is the maximum depth of nested symlinks (symlinks that need to be resolved in order to
+// resolve another symlink), same as Linux.
+const maxSymlinks = 40
+
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
+	return fsGetNested(dir, pathname, create, followLinks, 0)
+}
+
+func fsGetNested(dir *fsfile, pathname string, create, followLinks bool, depth int) (*fsfile, error) {
 	pathname = path.Clean(pathname)
 
 	done := 0 // index of the next byte in pathname to look at
@@ -47,13 +55,13 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 			break
 		}
 		var err error
-		dir, err = dir.Get(pathname[done:done+slash], create, false)
+		dir, err = dir.getNested(pathname[done:done+slash], create, false, depth)
 		done += slash + 1
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.Get(pathname[done:], create, followLinks)
+	ret, err := dir.getNested(pathname[done:], create, followLinks, depth)
 	if err != nil {
 		return nil, err
 	}
@@ -61,6 +69,18 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
+	return f.getNested(child, create, followLinks, 0)
+}
+
+func (f *fsfile) getNested(child string, create, followLinks bool, depth int) (*fsfile, error) {
+	if depth > maxSymlinks {
+		return nil, &fs.PathError{
+			Op:   "vfs.readlink",
+			Path: "/" + f.name,
+			Err:  ErrLoop,
+		}
+	}
+
 	var ret *fsfile
 
 	switch child {
@@ -70,7 +90,7 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			newF, err := fsGet(f.parent, f.header.Linkname, create, true)
+			newF, err := fsGetNested(f.parent, f.header.Linkname, create, true, depth+1)
 			if err != nil {
 				return nil, &fs.PathError{
 					Op:   "vfs.readlink(dir)",
@@ -127,7 +147,7 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 			}
 		}
 		stack[ret] = struct{}{}
-		target, err := fsGet(ret.parent, ret.header.Linkname, create, false)
+		target, err := fsGetNested(ret.parent, ret.header.Linkname, create, false, depth+1)
 		if err != nil {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
-- 
2.43.0


From 8fd577cb11e360e1851a21694a48a5fbfeb61b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:38 +0000
Subject: [PATCH 04/54] fix: squash: don't modify the tree when only reading it

---
 pkg/squash/vfs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index be74041..5d9fbbc 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -124,10 +124,10 @@ func (f *fsfile) getNested(child string, create, followLinks bool, depth int) (*
 			}
 		}
 		// Look up the child
-		if f.children == nil {
-			f.children = make(map[string]*fsfile)
-		}
 		if _, ok := f.children[child]; create && !ok {
+			if f.children == nil {
+				f.children = make(map[string]*fsfile)
+			}
 			f.children[child] = &fsfile{ //nolint:exhaustivestruct
 				name:   path.Join(f.name, child),
 				parent: f,
-- 
2.43.0


From 4bec285957fda20244f93bbdd8653ca84a042e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:39 +0000
Subject: [PATCH 05/54] fix: squash: list directories that contain dangling
 symlinks

---
 pkg/squash/vfs_fs.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 7dd2b05..570e75e 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -185,15 +185,13 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 				lnkDirEnt = missingDirEntry(childname)
 			}
 
-			tgt, err := lnk.Get(".", false, true) // follow symlinks
-			if err != nil {
-				return nil, err
-			}
-			var tgtDirEnt fs.DirEntry
-			if tgt.header != nil {
-				tgtDirEnt = fs.FileInfoToDirEntry(tgt.header.FileInfo())
-			} else {
-				tgtDirEnt = missingDirEntry(childname)
+			tgtDirEnt := lnkDirEnt // dangling symlinks get listed too
+			if tgt, err := lnk.Get(".", false, true); err == nil { // follow symlinks
+				if tgt.header != nil {
+					tgtDirEnt = fs.FileInfoToDirEntry(tgt.header.FileInfo())
+				} else {
+					tgtDirEnt = missingDirEntry(childname)
+				}
 			}
 
 			f.dirents = append(f.dirents, &dirEntry{
-- 
2.43.0


From baa80a6812693e12d6055265597e61a5aa2a9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:39 +0000
Subject: [PATCH 06/54] fix: squash: treat hard links as the same file, and
 write them after their target

---
 pkg/squash/squash.go |  9 +++++++++
 pkg/squash/vfs.go    | 31 +++++++++++++++++++++++++++++--
 pkg/squash/vfs_fs.go | 15 ++++++++++-----
 3 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/pkg/squash/squash.go b/pkg/squash/squash.go
index e169b56..6a32d67 100644
--- a/pkg/squash/squash.go
+++ b/pkg/squash/squash.go
@@ -38,9 +38,18 @@ func loadLayers(layers []ociv1.Layer, omitContent bool) (*fsfile, error) {
 			if err != nil {
 				return nil, err
 			}
+			var target *fsfile
+			if file.Header.Typeflag == tar.TypeLink {
+				// If the target isn't in the layers we've been given, then leave it as a
+				// by-name reference to something in a lower layer.
+				target, _ = fsGet(root, file.Header.Linkname, false, false)
+			}
 			if err := vfsFile.Set(file.Header, file.Body); err != nil {
 				return nil, err
 			}
+			if target != nil && target != vfsFile {
+				vfsFile.linkTo(target)
+			}
 		}
 	}
 	return root, nil
diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 5d9fbbc..f7246e7 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -225,7 +225,23 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 	return nil
 }
 
+// linkTo turns f in to a hardlink to target; the two share the same header from then on (until one
+// of them is replaced), which is what identifies them as being the same file.
+func (f *fsfile) linkTo(target *fsfile) {
+	if target.header == nil || target.header.Typeflag == tar.TypeDir {
+		return
+	}
+	f.header = target.header
+	f.body = target.body
+}
+
 func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
+	return f.writeTo(tarWriter, make(map[*tar.Header]string))
+}
+
+// writeTo implements WriteTo; written is a mapping of file headers to the name that the file has
+// already been written to the archive as.
+func (f *fsfile) writeTo(tarWriter *tar.Writer, written map[*tar.Header]string) error {
 	name := f.name
 
 	if f.header != nil {
@@ -239,10 +255,21 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 			// that might not be able to encode the new name.
 			hdr.Format = tar.FormatUnknown
 		}
+		body := f.body
+		if linkname, ok := written[f.header]; ok {
+			hdr.Typeflag = tar.TypeLink
+			hdr.Linkname = linkname
+			hdr.Size = 0
+			hdr.Devmajor = 0
+			hdr.Devminor = 0
+			body = nil
+		} else {
+			written[f.header] = name
+		}
 		if err := tarWriter.WriteHeader(&hdr); err != nil {
 			return err
 		}
-		if _, err := tarWriter.Write(f.body); err != nil {
+		if _, err := tarWriter.Write(body); err != nil {
 			return err
 		}
 	}
@@ -267,7 +294,7 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 
 	for _, childName := range childNames {
 		child := f.children[childName]
-		if err := child.WriteTo(tarWriter); err != nil {
+		if err := child.writeTo(tarWriter, written); err != nil {
 			return err
 		}
 	}
diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 570e75e..6f222df 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -78,9 +78,14 @@ func (f *fsfileReader) Stat() (fs.FileInfo, error) {
 			Err:  ErrMissing,
 		}
 	}
-	hdr := *f.tgt.header // shallow copy
-	hdr.Name = f.lnk.header.Name
-	return hdr.FileInfo(), nil
+	return f.tgt.fileInfo(f.lnk.name), nil
+}
+
+// fileInfo returns the fs.FileInfo for f, as seen through the given name.
+func (f *fsfile) fileInfo(name string) fs.FileInfo {
+	hdr := *f.header // shallow copy
+	hdr.Name = name
+	return hdr.FileInfo()
 }
 
 // Read implements io/fs.File.
@@ -180,7 +185,7 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 
 			var lnkDirEnt fs.DirEntry
 			if lnk.header != nil {
-				lnkDirEnt = fs.FileInfoToDirEntry(lnk.header.FileInfo())
+				lnkDirEnt = fs.FileInfoToDirEntry(lnk.fileInfo(lnk.name))
 			} else {
 				lnkDirEnt = missingDirEntry(childname)
 			}
@@ -188,7 +193,7 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 			tgtDirEnt := lnkDirEnt // dangling symlinks get listed too
 			if tgt, err := lnk.Get(".", false, true); err == nil { // follow symlinks
 				if tgt.header != nil {
-					tgtDirEnt = fs.FileInfoToDirEntry(tgt.header.FileInfo())
+					tgtDirEnt = fs.FileInfoToDirEntry(tgt.fileInfo(tgt.name))
 				} else {
 					tgtDirEnt = missingDirEntry(childname)
 				}
-- 
2.43.0


From ec110e4e21fced43d10147626734dc834797aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:20 +0000
Subject: [PATCH 07/54] fix: squash: drop whiteouts that an opaque whiteout in
 the same directory already covers

Such a marker was kept or dropped depending on how its name sorts, so squashing
an already squashed layer (or squashing in several steps) changed the output.
---
 pkg/squash/vfs.go    | 4 ++++
 pkg/squash/vfs_fs.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index f7246e7..33798df 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -214,6 +214,10 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 				}
 			} else {
 				delete(f.parent.children, strings.TrimPrefix(basename, ".wh."))
+				if _, opaque := f.parent.children[".wh..wh..opq"]; opaque {
+					// The opaque whiteout already covers it.
+					delete(f.parent.children, basename)
+				}
 			}
 		} else if f.header.Typeflag != tar.TypeDir {
 			// A non-directory replaces whatever is below it, so the whiteout marker is
diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 6f222df..682fe12 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -190,7 +190,7 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 				lnkDirEnt = missingDirEntry(childname)
 			}
 
-			tgtDirEnt := lnkDirEnt // dangling symlinks get listed too
+			tgtDirEnt := lnkDirEnt                                 // dangling symlinks get listed too
 			if tgt, err := lnk.Get(".", false, true); err == nil { // follow symlinks
 				if tgt.header != nil {
 					tgtDirEnt = fs.FileInfoToDirEntry(tgt.fileInfo(tgt.name))
-- 
2.43.0


From f5a8b72fd1f57f45b85b36779d69798a6d5bbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 08/54] fix: squash: limit the total number of symlinks
 followed to resolve a path

The depth limit alone let a handful of symlinks (a1 -> a0/a0, a2 -> a1/a1, ...)
take exponential time to resolve.
---
 pkg/squash/vfs.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 33798df..0204378 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -27,15 +27,15 @@ type fsfile struct {
 	body   []byte
 }
 
-// maxSymlinks is the maximum depth of nested symlinks (symlinks that need to be resolved in order to
-// resolve another symlink), same as Linux.
+// maxSymlinks is the maximum number of symlinks that get followed to resolve one path, same as Linux.
 const maxSymlinks = 40
 
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
-	return fsGetNested(dir, pathname, create, followLinks, 0)
+	return fsGetNested(dir, pathname, create, followLinks, new(int))
 }
 
-func fsGetNested(dir *fsfile, pathname string, create, followLinks bool, depth int) (*fsfile, error) {
+// fsGetNested implements fsGet; nLinks counts how many symlinks have been followed so far.
+func fsGetNested(dir *fsfile, pathname string, create, followLinks bool, nLinks *int) (*fsfile, error) {
 	pathname = path.Clean(pathname)
 
 	done := 0 // index of the next byte in pathname to look at
@@ -55,13 +55,13 @@ func fsGetNested(dir *fsfile, pathname string, create, followLinks bool, depth i
 			break
 		}
 		var err error
-		dir, err = dir.getNested(pathname[done:done+slash], create, false, depth)
+		dir, err = dir.getNested(pathname[done:done+slash], create, false, nLinks)
 		done += slash + 1
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.getNested(pathname[done:], create, followLinks, depth)
+	ret, err := dir.getNested(pathname[done:], create, followLinks, nLinks)
 	if err != nil {
 		return nil, err
 	}
@@ -69,11 +69,11 @@ func fsGetNested(dir *fsfile, pathname string, create, followLinks bool, depth i
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
-	return f.getNested(child, create, followLinks, 0)
+	return f.getNested(child, create, followLinks, new(int))
 }
 
-func (f *fsfile) getNested(child string, create, followLinks bool, depth int) (*fsfile, error) {
-	if depth > maxSymlinks {
+func (f *fsfile) getNested(child string, create, followLinks bool, nLinks *int) (*fsfile, error) {
+	if *nLinks > maxSymlinks {
 		return nil, &fs.PathError{
 			Op:   "vfs.readlink",
 			Path: "/" + f.name,
@@ -90,7 +90,8 @@ func (f *fsfile) getNested(child string, create, followLinks bool, depth int) (*
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			newF, err := fsGetNested(f.parent, f.header.Linkname, create, true, depth+1)
+			*nLinks++
+			newF, err := fsGetNested(f.parent, f.header.Linkname, create, true, nLinks)
 			if err != nil {
 				return nil, &fs.PathError{
 					Op:   "vfs.readlink(dir)",
@@ -147,7 +148,8 @@ func (f *fsfile) getNested(child string, create, followLinks bool, depth int) (*
 			}
 		}
 		stack[ret] = struct{}{}
-		target, err := fsGetNested(ret.parent, ret.header.Linkname, create, false, depth+1)
+		*nLinks++
+		target, err := fsGetNested(ret.parent, ret.header.Linkname, create, false, nLinks)
 		if err != nil {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
-- 
2.43.0


From 3ce2cee969780cc0524556540cf2b2d5bc820c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:39 +0000
Subject: [PATCH 09/54] fix: dir: apply --chown-* before writing the entry's
 header

The overrides were set on the header after it had already been written, so they
had no effect.  Now that they have one, make --chown-gname default to the actual
group name, as the other --chown-* flags and its own description do.
---
 cmd_layer_dir.go               | 2 +-
 pkg/dir/dir.go                 | 6 +++---
 userdocs/ocibuild_layer_dir.md | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd_layer_dir.go b/cmd_layer_dir.go
index b89d24a..2648711 100644
--- a/cmd_layer_dir.go
+++ b/cmd_layer_dir.go
@@ -54,7 +54,7 @@ func init() {
 		"Force symbolic user name of the read files to be `uname`; an empty value uses the user name")
 	cmd.Flags().IntVar(&flagChOwn.GID, "chown-gid", -1,
 		"Force the numeric group ID of read files to be `GID`; use a value <0 to use the actual GID")
-	cmd.Flags().StringVar(&flagChOwn.GName, "chown-gname", "root",
+	cmd.Flags().StringVar(&flagChOwn.GName, "chown-gname", "",
 		"Force symbolic group name of the read files to be `gname`; an empty value uses the actual group name")
 
 	argparserLayer.AddCommand(cmd)
diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index a482fee..01cc923 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -122,9 +122,6 @@ func LayerFromDir(
 		if header.ChangeTime.After(clampTime) {
 			header.ChangeTime = clampTime
 		}
-		if err := tarWriter.WriteHeader(header); err != nil {
-			return err
-		}
 		if chown != nil {
 			if chown.UID >= 0 {
 				header.Uid = chown.UID
@@ -139,6 +136,9 @@ func LayerFromDir(
 				header.Gname = chown.GName
 			}
 		}
+		if err := tarWriter.WriteHeader(header); err != nil {
+			return err
+		}
 		if header.Typeflag == tar.TypeReg {
 			reader, err := os.Open(filename)
 			if err != nil {
diff --git a/userdocs/ocibuild_layer_dir.md b/userdocs/ocibuild_layer_dir.md
index a3c8f63..1598d10 100644
--- a/userdocs/ocibuild_layer_dir.md
+++ b/userdocs/ocibuild_layer_dir.md
@@ -10,7 +10,7 @@ ocibuild layer dir [flags] IN_DIRNAME >OUT_LAYERFILE
 
 ```
       --chown-gid GID         Force the numeric group ID of read files to be GID; use a value <0 to use the actual GID (default -1)
-      --chown-gname gname     Force symbolic group name of the read files to be gname; an empty value uses the actual group name (default "root")
+      --chown-gname gname     Force symbolic group name of the read files to be gname; an empty value uses the actual group name
       --chown-uid UID         Force the numeric user ID of read files to be UID; a value of <0 uses the actual UID (default -1)
       --chown-uname uname     Force symbolic user name of the read files to be uname; an empty value uses the user name
   -h, --help                  help for dir
-- 
2.43.0


From cd2489dfbaa218a16f9c96db9e7ec4c872653a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:39 +0000
Subject: [PATCH 10/54] fix: dir: handle prefixes that aren't in canonical form

A prefix with a leading slash looped until memory ran out, and one with a
trailing slash got the same directory twice.  Also don't modify the caller's
Prefix.
---
 pkg/dir/dir.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 01cc923..d7119c5 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -4,11 +4,13 @@ package dir
 import (
 	"archive/tar"
 	"bytes"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -49,9 +51,15 @@ func LayerFromDir(
 	var log []logEntry
 
 	if prefix != nil {
+		_prefix := *prefix // don't modify the caller's copy
+		prefix = &_prefix
 		if prefix.Mode == 0 {
 			prefix.Mode = 0o755
 		}
+		prefix.DirName = path.Clean(prefix.DirName)
+		if path.IsAbs(prefix.DirName) || prefix.DirName == ".." || strings.HasPrefix(prefix.DirName, "../") {
+			return nil, fmt.Errorf("invalid prefix: must be relative to the image root: %q", prefix.DirName)
+		}
 		var dirs []string
 		for dir := prefix.DirName; dir != "."; dir = path.Dir(dir) {
 			dirs = append(dirs, dir)
-- 
2.43.0


From 9586d057e25885419f04f5ce83a88fafefea64c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:40 +0000
Subject: [PATCH 11/54] fix: dir: don't silently create an empty layer from a
 symlink or a non-directory

---
 pkg/dir/dir.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index d7119c5..be6144c 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"path/filepath"
 	"strings"
+	"syscall"
 	"time"
 
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -81,7 +82,18 @@ func LayerFromDir(
 		}
 	}
 
-	err := filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
+	// filepath.Walk doesn't follow symlinks, not even for the root.
+	dirname, err := filepath.EvalSymlinks(dirname)
+	if err != nil {
+		return nil, err
+	}
+	if info, err := os.Stat(dirname); err != nil {
+		return nil, err
+	} else if !info.IsDir() {
+		return nil, &fs.PathError{Op: "readdir", Path: dirname, Err: syscall.ENOTDIR}
+	}
+
+	err = filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From c2f1c65a893bf244b5bf3b5fca549324676f9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:58 +0000
Subject: [PATCH 12/54] fix: bdist: don't let archive members dodge the
 integrity check

Files that are marked as directories in their mode bits were installed without
being checked, of several members with the same name the first one was checked
but the last one was installed, and members could be outside of the archive
root.
---
 .../pypa/bdist/binary_distribution_format.go  |  6 ++++-
 pkg/python/pypa/bdist/misc.go                 | 26 +++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4df8590..d726131 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -816,9 +816,13 @@ func (wh *wheel) integrityCheck() error {
 		return err
 	}
 
+	if err := wh.checkNames(); err != nil {
+		return err
+	}
+
 	todo := make(map[string]struct{})
 	for _, file := range wh.zip.File {
-		if file.FileInfo().IsDir() {
+		if isDirectory(file.FileHeader) {
 			continue
 		}
 		name := path.Clean(file.Name)
diff --git a/pkg/python/pypa/bdist/misc.go b/pkg/python/pypa/bdist/misc.go
index c50a4d7..723f567 100644
--- a/pkg/python/pypa/bdist/misc.go
+++ b/pkg/python/pypa/bdist/misc.go
@@ -40,6 +40,32 @@ func isExecutable(fh zip.FileHeader) bool {
 	return externalAttrs.UNIX.IsRegular() && (externalAttrs.UNIX&0o111 != 0)
 }
 
+// isDirectory returns whether a ZIP member is a directory.  Like Python's zipfile, this ignores the
+// mode bits; so that a file that is marked as being a directory isn't mistaken for one.
+func isDirectory(fh zip.FileHeader) bool {
+	return strings.HasSuffix(fh.Name, "/")
+}
+
+// checkNames validates that each member of the archive has its own location, inside of the
+// directory that the archive gets unpacked in to.
+func (wh *wheel) checkNames() error {
+	names := make(map[string]struct{}, len(wh.zip.File))
+	for _, file := range wh.zip.File {
+		name := path.Clean(file.Name)
+		if path.IsAbs(name) || name == ".." || strings.HasPrefix(name, "../") {
+			return fmt.Errorf("member is outside of the archive root: %q", file.Name)
+		}
+		if name == "." && !isDirectory(file.FileHeader) {
+			return fmt.Errorf("invalid member name: %q", file.Name)
+		}
+		if _, dup := names[name]; dup {
+			return fmt.Errorf("duplicate member: %q", name)
+		}
+		names[name] = struct{}{}
+	}
+	return nil
+}
+
 // distInfoDir returns the "{name}.dist-info" directory for the wheel file.
 //
 // This is based off of `pip/_internal/utils/wheel.py:wheel_dist_info_dir()`, since PEP 427 doesn't
-- 
2.43.0


From f2abee7f322091e370f5769ae09a9cd04b029737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 13/54] fix: bdist: refuse wheels with several files for the
 same location

Spreading the .data directory silently dropped a file (which one was random)
if two members ended up at the same path, could spread the same file twice,
turned a file that's named like a data category in to a file in place of the
scheme directory, and didn't notice a file that is the parent of another.
---
 .../pypa/bdist/binary_distribution_format.go  | 44 ++++++++++++++++---
 pkg/python/pypa/bdist/ioutil.go               | 21 ++++-----
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index d726131..be3a250 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -148,7 +148,11 @@ func InstallWheel(
 	// ensure that parent directories exist
 	for filename := range vfs {
 		for dir := path.Dir(filename); dir != "."; dir = path.Dir(dir) {
-			if _, exists := vfs[dir]; !exists {
+			if parent, exists := vfs[dir]; exists {
+				if !parent.IsDir() {
+					return nil, fmt.Errorf("bdist.InstallWheel: %q is both a file and a directory", dir)
+				}
+			} else {
 				vfs[dir] = &fsutil.InMemFileReference{
 					FileInfo: (&tar.Header{
 						Typeflag: tar.TypeDir,
@@ -262,7 +266,12 @@ func (wh *wheel) installToVFS(
 	}
 	vfs := make(map[string]fsutil.FileReference)
 	for _, file := range wh.zip.File {
-		create(vfs, minTime, path.Join(dstDir, file.FileHeader.Name), &zipEntry{
+		fullName := path.Join(dstDir, file.FileHeader.Name)
+		if fullName == "" {
+			// The root directory; that's not something that appears in a layer.
+			continue
+		}
+		create(vfs, minTime, fullName, &zipEntry{
 			header: file.FileHeader,
 			open:   file.Open,
 		})
@@ -287,10 +296,21 @@ func (wh *wheel) installToVFS(
 	}
 	vfsTypes := make(map[string]string)
 	dataDir := path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data")
+	// Collect the names before renaming anything; if we renamed things while iterating over the
+	// vfs, then we might see (and spread) a renamed file again.
+	var dataNames []string
 	for fullName := range vfs {
-		if !strings.HasPrefix(fullName, dataDir+"/") {
-			continue
+		if strings.HasPrefix(fullName, dataDir+"/") {
+			dataNames = append(dataNames, fullName)
 		}
+	}
+	sort.Strings(dataNames)
+	dataFiles := make([]*zipEntry, 0, len(dataNames))
+	for _, fullName := range dataNames {
+		dataFiles = append(dataFiles, vfs[fullName].(*zipEntry)) //nolint:forcetypeassert // only ever zipEntries
+		delete(vfs, fullName)
+	}
+	for i, fullName := range dataNames {
 		relName := strings.TrimPrefix(fullName, dataDir+"/")
 		parts := strings.SplitN(relName, "/", 2)
 		key := parts[0]
@@ -315,11 +335,19 @@ func (wh *wheel) installToVFS(
 			return nil, "", fmt.Errorf("unsupported wheel data type %q: %q",
 				key, path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
 		}
+		if rest == "" && !dataFiles[i].IsDir() {
+			return nil, "", fmt.Errorf("spread: not a directory: %q",
+				path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
+		}
 		newFullName := path.Join(dstDataDir, rest)
-		vfsTypes[newFullName] = key
-		if err := rename(vfs, fullName, newFullName); err != nil {
+		if newFullName == "" {
+			// The root directory; that's not something that appears in a layer.
+			continue
+		}
+		if err := move(vfs, dataFiles[i], newFullName); err != nil {
 			return nil, "", fmt.Errorf("spread: %w", err)
 		}
+		vfsTypes[newFullName] = key
 	}
 	//   c. If applicable, update scripts starting with ``#!python`` to point
 	//      to the correct interpreter.
@@ -339,7 +367,9 @@ func (wh *wheel) installToVFS(
 	// create(vfs, path.Join(dstDir, distInfoDir, "RECORD"), TODO(vfs))
 
 	//   e. Remove empty ``distribution-1.0.data`` directory.
-	delete(vfs, path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data"))
+	if file, ok := vfs[dataDir]; ok && file.IsDir() {
+		delete(vfs, dataDir)
+	}
 	//   f. Compile any installed .py to .pyc. (Uninstallers should be smart
 	//      enough to remove .pyc even if it is not mentioned in RECORD.)
 	var srcs []fsutil.FileReference //nolint:prealloc // 'continue' is quite likely
diff --git a/pkg/python/pypa/bdist/ioutil.go b/pkg/python/pypa/bdist/ioutil.go
index dd94628..adb25aa 100644
--- a/pkg/python/pypa/bdist/ioutil.go
+++ b/pkg/python/pypa/bdist/ioutil.go
@@ -54,23 +54,24 @@ func (f *zipEntry) IsDir() bool                  { return f.header.FileInfo().Is
 func (f *zipEntry) Sys() interface{}             { return f.header.FileInfo().Sys() }
 func (f *zipEntry) Open() (io.ReadCloser, error) { return f.open() }
 
-func rename(vfs map[string]fsutil.FileReference, oldpath, newpath string) error {
-	ref, ok := vfs[oldpath]
-	if !ok {
+// move inserts an existing file in to the vfs at a new location.  It is OK for that location to be an
+// existing directory if the file is a directory too; but it is an error for two files to end up at
+// the same location.
+func move(vfs map[string]fsutil.FileReference, file *zipEntry, newpath string) error {
+	isDir := file.IsDir() //nolint:ifshort // gotta do this before setting .header.Name
+	if existing, conflict := vfs[newpath]; conflict && !(isDir && existing.IsDir()) {
 		return &os.LinkError{
 			Op:  "rename",
-			Old: oldpath,
+			Old: file.FullName(),
 			New: newpath,
-			Err: os.ErrNotExist,
+			Err: os.ErrExist,
 		}
 	}
-	isDir := ref.IsDir() //nolint:ifshort // gotta do this before setting .header.Name
-	ref.(*zipEntry).header.Name = newpath
+	file.header.Name = newpath
 	if isDir {
-		ref.(*zipEntry).header.Name += "/"
+		file.header.Name += "/"
 	}
-	delete(vfs, oldpath)
-	vfs[newpath] = ref
+	vfs[newpath] = file
 	return nil
 }
 
-- 
2.43.0


From ee9ce750dc33f25ff6957f949bfad9f66906dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 14/54] fix: bdist: handle scheme directories that aren't in
 canonical form

A scheme directory of "//usr/bin" gave entries with absolute names, and an
infinite loop creating their parent directories.
---
 pkg/python/pypa/bdist/misc.go                | 3 +--
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/python/pypa/bdist/misc.go b/pkg/python/pypa/bdist/misc.go
index 723f567..92e3163 100644
--- a/pkg/python/pypa/bdist/misc.go
+++ b/pkg/python/pypa/bdist/misc.go
@@ -27,8 +27,7 @@ func sanitizePlatformForLayer(plat python.Platform) (python.Platform, error) {
 		&plat.Scheme.Data,
 	}
 	for _, pathPtr := range paths {
-		clean := strings.TrimPrefix(filepath.ToSlash(*pathPtr), "/")
-		*pathPtr = clean
+		*pathPtr = strings.TrimPrefix(path.Clean(filepath.ToSlash(*pathPtr)), "/")
 	}
 
 	return plat, nil
diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index ee915cd..415d804 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -102,7 +102,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				}
 				header := &tar.Header{
 					Typeflag: tar.TypeReg,
-					Name:     path.Join(plat.Scheme.Scripts[1:], key),
+					Name:     strings.TrimPrefix(path.Join(plat.Scheme.Scripts, key), "/"),
 					Mode:     0o755,
 					Size:     int64(buf.Len()),
 					ModTime:  clampTime,
-- 
2.43.0


From ae72b09f7c3f6b91c9db33245c487f9c500a2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:57 +0000
Subject: [PATCH 15/54] fix: entry_points: generate working scripts, and only
 in the scripts directory

"module:object.attr" generated a script that's a syntax error, as did names
that start with a digit; "module : object" was refused; a name with slashes or
dots could overwrite any file of the layer; and which script won if a name was
both a console script and a gui script was random.
---
 pkg/python/pypa/entry_points/entry_points.go | 38 ++++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 415d804..0afe182 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -19,6 +19,9 @@ import (
 	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
 )
 
+// reDotted matches one-or-more dot-separated Python identifiers.
+const reDotted = `[A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*`
+
 //nolint:gochecknoglobals // Would be 'const'.
 var (
 	scriptTmpl = template.Must(template.
@@ -27,7 +30,7 @@ var (
 # -*- coding: utf-8 -*-
 import re
 import sys
-from {{ .Module }} import {{ .Func }}
+from {{ .Module }} import {{ .ImportName }}
 if __name__ == '__main__':
     sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
     sys.exit({{ .Func }}())
@@ -42,7 +45,7 @@ if __name__ == '__main__':
 
 	// This is lax on validation of the [extras] part, but that's OK; we don't care about that
 	// part.
-	reFuncRef = regexp.MustCompile(`^(?P<callable>\w+([:.]\w+)*)(?:\s*\[.*\])?$`)
+	reFuncRef = regexp.MustCompile(`^(?P<module>` + reDotted + `)\s*:\s*(?P<func>` + reDotted + `)(?:\s*\[.*\])?$`)
 )
 
 func CreateScripts(plat python.Platform) bdist.PostInstallHook {
@@ -65,38 +68,43 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 		}
 
 		configData, err := configParser.Parse(configReader)
+		_ = configReader.Close()
 		if err != nil {
 			return err
 		}
 
-		interesting := map[string]string{
-			"console_scripts": plat.ConsoleShebang,
-			"gui_scripts":     plat.GraphicalShebang,
+		// Use a slice instead of a map, for a deterministic order.
+		interesting := []struct {
+			sectionName string
+			shebang     string
+		}{
+			{"console_scripts", plat.ConsoleShebang},
+			{"gui_scripts", plat.GraphicalShebang},
 		}
 
-		for sectionName, shebang := range interesting {
+		for _, section := range interesting {
+			sectionName, shebang := section.sectionName, section.shebang
 			sectionData, ok := configData[sectionName]
 			if !ok {
 				continue
 			}
 			for key, val := range sectionData {
+				if key == "" || key == "." || key == ".." || strings.Contains(key, "/") {
+					return fmt.Errorf("entry_points.txt: %q: not a valid script name: %q",
+						sectionName, key)
+				}
 				m := reFuncRef.FindStringSubmatch(val)
 				if m == nil {
 					return fmt.Errorf("entry_points.txt: %q: %q: not a function reference: %q",
 						sectionName, key, val)
 				}
-				funcRef := m[reFuncRef.SubexpIndex("callable")]
-				parts := strings.Split(funcRef, ":")
-				if len(parts) != 2 {
-					return fmt.Errorf("entry_points.txt: %q: %q: not a function reference: %q",
-						sectionName, key, val)
-				}
+				funcName := m[reFuncRef.SubexpIndex("func")]
 				var buf bytes.Buffer
 				if err := scriptTmpl.Execute(&buf, map[string]string{
 					"Shebang":    shebang,
-					"Module":     parts[0],
-					"ImportName": strings.SplitN(parts[1], ".", 2)[0],
-					"Func":       parts[1],
+					"Module":     m[reFuncRef.SubexpIndex("module")],
+					"ImportName": strings.SplitN(funcName, ".", 2)[0],
+					"Func":       funcName,
 				}); err != nil {
 					return fmt.Errorf("%s: %s: %w", sectionName, key, err)
 				}
-- 
2.43.0


From e0ab361bca52e612da2ba84d05782ba557628b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:15 +0000
Subject: [PATCH 16/54] fix: py_compile: don't leak the umask or clock in to
 .pyc files

Also record the source mtime that the layer will have, don't let concurrent
calls append to the same slice, and don't panic on an empty command line.
---
 pkg/python/py_compile.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index c70b0cf..cb31973 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -1,6 +1,7 @@
 package python
 
 import (
+	"archive/tar"
 	"context"
 	"fmt"
 	"io"
@@ -37,6 +38,12 @@ type Compiler func(
 //
 //     plat.Compile = ExternalCompiler("python3", "-m", "compileall")
 func ExternalCompiler(cmdline ...string) (Compiler, error) {
+	if len(cmdline) == 0 {
+		return nil, fmt.Errorf("python.ExternalCompiler: empty command line")
+	}
+	// Make a copy; both in case the caller re-uses the slice, and so that concurrent calls don't
+	// append to the same backing array.
+	args := append([]string(nil), cmdline[1:]...)
 	exe, err := dexec.LookPath(cmdline[0])
 	if err != nil {
 		return nil, err
@@ -110,8 +117,15 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 			}
 			inReader = nil
 
-			// File metadata
-			if err := os.Chtimes(tmpfilename, inFile.ModTime(), inFile.ModTime()); err != nil {
+			// File metadata.  The .pyc file may contain the mtime of the source file, so
+			// mimic the clamping and rounding that happens when writing the source file to
+			// a layer.
+			mtime := inFile.ModTime()
+			if !clampTime.IsZero() && mtime.After(clampTime) {
+				mtime = clampTime
+			}
+			mtime = mtime.Round(time.Second)
+			if err := os.Chtimes(tmpfilename, mtime, mtime); err != nil {
 				return err
 			}
 
@@ -125,7 +139,7 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 		}
 
 		// Run the compiler
-		cmd := dexec.CommandContext(ctx, exe, append(cmdline[1:],
+		cmd := dexec.CommandContext(ctx, exe, append(args[:len(args):len(args)],
 			"-s", tmpdir, // strip-dir for the in-.pyc filename
 			"-p", "/", // prepend-dir for the in-.pyc filename
 			tmpdir, // directory to compile
@@ -174,8 +188,19 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 			if err != nil {
 				return err
 			}
+			// Don't leak the host's umask or clock.
+			header := &tar.Header{
+				Typeflag: tar.TypeReg,
+				Name:     fullname,
+				Mode:     0o644,
+				Size:     int64(len(content)),
+				ModTime:  info.ModTime(),
+			}
+			if !clampTime.IsZero() {
+				header.ModTime = clampTime
+			}
 			ret = append(ret, &fsutil.InMemFileReference{
-				FileInfo:  info,
+				FileInfo:  header.FileInfo(),
 				MFullName: fullname,
 				MContent:  content,
 			})
-- 
2.43.0


From 34a61100515609c1e5dd93e2f0fc191f2895fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:15 +0000
Subject: [PATCH 17/54] fix: bdist: don't try to compile directories named *.py

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index be3a250..7d319bb 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -374,7 +374,7 @@ func (wh *wheel) installToVFS(
 	//      enough to remove .pyc even if it is not mentioned in RECORD.)
 	var srcs []fsutil.FileReference //nolint:prealloc // 'continue' is quite likely
 	for _, file := range vfs {
-		if !strings.HasSuffix(file.Name(), ".py") {
+		if file.IsDir() || !strings.HasSuffix(file.Name(), ".py") {
 			continue
 		}
 		srcs = append(srcs, file)
-- 
2.43.0


From 9d26b6fefadf0fa30b8d1e88a6d5933be94bd508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:15 +0000
Subject: [PATCH 18/54] fix: recording_installs: don't write to the hook's
 shared hashName

---
 pkg/python/pypa/recording_installs/recording_installs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/python/pypa/recording_installs/recording_installs.go b/pkg/python/pypa/recording_installs/recording_installs.go
index a5a663c..089e4bd 100644
--- a/pkg/python/pypa/recording_installs/recording_installs.go
+++ b/pkg/python/pypa/recording_installs/recording_installs.go
@@ -95,6 +95,7 @@ func Record(hashName, installer string, urlData *direct_url.DirectURL) bdist.Pos
 
 		// 3. The RECORD file
 		// Do this last.
+		hashName := hashName // don't modify the variable shared with other calls
 		if hashName == "" {
 			hashName = defaultHashAlgorithm
 		}
-- 
2.43.0


From 2d8ea87538f0d5b670b0276f88d1b9b494cceeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:16 +0000
Subject: [PATCH 19/54] fix: pyinspect: don't append to the caller's command
 line

---
 pkg/python/pyinspect/pyinspect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/pyinspect.go b/pkg/python/pyinspect/pyinspect.go
index aeb07ef..9b072ef 100644
--- a/pkg/python/pyinspect/pyinspect.go
+++ b/pkg/python/pyinspect/pyinspect.go
@@ -87,7 +87,7 @@ type DynamicInfo struct {
 }
 
 func Dynamic(ctx context.Context, cmdline ...string) (*DynamicInfo, error) {
-	cmd := dexec.CommandContext(ctx, cmdline[0], append(cmdline[1:], "-c", `
+	cmd := dexec.CommandContext(ctx, cmdline[0], append(cmdline[1:len(cmdline):len(cmdline)], "-c", `
 import json
 import sys
 from base64 import b64encode
-- 
2.43.0


From 4617ee3a7ae4a33141f40a91e6312dcacc2158fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:09 +0000
Subject: [PATCH 20/54] fix: bdist: don't accept a directory in place of an
 empty file listed in RECORD

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 7d319bb..7acf809 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -72,7 +72,7 @@ type wheel struct {
 func (wh *wheel) Open(filename string) (io.ReadCloser, error) {
 	filename = path.Clean(filename)
 	for _, file := range wh.zip.File {
-		if path.Clean(file.Name) == filename {
+		if path.Clean(file.Name) == filename && !isDirectory(file.FileHeader) {
 			return file.Open()
 		}
 	}
-- 
2.43.0


From b54960a959b240c3cda78a0d8cbe105ca8e37aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:12 +0000
Subject: [PATCH 21/54] fix: recording_installs: don't mangle newlines in
 filenames

---
 .../recording_installs/recording_installs.go  | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pkg/python/pypa/recording_installs/recording_installs.go b/pkg/python/pypa/recording_installs/recording_installs.go
index 089e4bd..f209733 100644
--- a/pkg/python/pypa/recording_installs/recording_installs.go
+++ b/pkg/python/pypa/recording_installs/recording_installs.go
@@ -122,14 +122,19 @@ func Record(hashName, installer string, urlData *direct_url.DirectURL) bdist.Pos
 			return csvData[i][0] < csvData[j][0]
 		})
 		var recordBytes bytes.Buffer
-		csvWriter := csv.NewWriter(&recordBytes)
-		csvWriter.UseCRLF = true
-		if err := csvWriter.WriteAll(csvData); err != nil {
-			return err
-		}
-		csvWriter.Flush()
-		if err := csvWriter.Error(); err != nil {
-			return err
+		// Don't use csv.Writer.UseCRLF; it mangles fields that contain newlines.
+		for _, row := range csvData {
+			var rowBytes bytes.Buffer
+			csvWriter := csv.NewWriter(&rowBytes)
+			if err := csvWriter.Write(row); err != nil {
+				return err
+			}
+			csvWriter.Flush()
+			if err := csvWriter.Error(); err != nil {
+				return err
+			}
+			recordBytes.Write(bytes.TrimSuffix(rowBytes.Bytes(), []byte("\n")))
+			recordBytes.WriteString("\r\n")
 		}
 		header = &tar.Header{
 			Typeflag: tar.TypeReg,
-- 
2.43.0


From d04749e052b538cbd638366400a531ff0a070274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:55 +0000
Subject: [PATCH 22/54] fix: gobuild: don't let the umask affect the layer

---
 pkg/gobuild/gobuild.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/gobuild/gobuild.go b/pkg/gobuild/gobuild.go
index 14180af..f22c2e1 100644
--- a/pkg/gobuild/gobuild.go
+++ b/pkg/gobuild/gobuild.go
@@ -4,6 +4,7 @@ package gobuild
 import (
 	"context"
 	"os"
+	"path/filepath"
 	"time"
 
 	"github.com/datawire/dlib/dexec"
@@ -51,6 +52,18 @@ func LayerFromGo(
 		return nil, err
 	}
 
+	// The mode that `go build` gives the binaries depends on the umask; don't let that leak in to
+	// the layer.
+	binaries, err := os.ReadDir(tmpdir)
+	if err != nil {
+		return nil, err
+	}
+	for _, binary := range binaries {
+		if err := os.Chmod(filepath.Join(tmpdir, binary.Name()), 0o755); err != nil {
+			return nil, err
+		}
+	}
+
 	ownership := dir.Ownership{
 		UID:   0,
 		UName: "root",
-- 
2.43.0


From 66c0931ab293feb1ad042acfda250f093567ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:55 +0000
Subject: [PATCH 23/54] fix: image build: don't ignore errors reading the base
 image's config

---
 cmd_image_build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd_image_build.go b/cmd_image_build.go
index 4735172..686072b 100644
--- a/cmd_image_build.go
+++ b/cmd_image_build.go
@@ -159,7 +159,10 @@ func init() {
 			}
 
 			if !flags.config.IsZero() {
-				configFile, _ := img.ConfigFile()
+				configFile, err := img.ConfigFile()
+				if err != nil {
+					return err
+				}
 
 				flags.config.ApplyTo(&configFile.Config)
 
-- 
2.43.0


From db6cb16b0f5519bb585d8c748fd51dea26d517a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:55 +0000
Subject: [PATCH 24/54] fix: fsutil: LayersEqualExceptTimestamps: ignore all
 timestamps, and report truncation

The change time and sub-second timestamps were not ignored, and two layers
that are truncated in the middle of the same file were considered equal.
---
 pkg/fsutil/diff.go | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index a58e213..48f2b87 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -10,17 +10,31 @@ import (
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
 )
 
+// readFull is like io.ReadFull, except that it can distinguish between the stream ending and the
+// stream being truncated.
+func readFull(reader io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var nn int
+		nn, err = reader.Read(buf[n:])
+		n += nn
+	}
+	if errors.Is(err, io.EOF) {
+		err = nil
+	}
+	return n, err
+}
+
 func readersEqual(a, b io.Reader) (equal bool, err error) {
 	const chunkSize = 1024
 
 	var aBuf, bBuf [chunkSize]byte
 	for {
-		aLen, err := io.ReadFull(a, aBuf[:])
-		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		aLen, err := readFull(a, aBuf[:])
+		if err != nil {
 			return false, err
 		}
-		bLen, err := io.ReadFull(b, bBuf[:])
-		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		bLen, err := readFull(b, bBuf[:])
+		if err != nil {
 			return false, err
 		}
 		if !bytes.Equal(aBuf[:aLen], bBuf[:bLen]) {
@@ -35,10 +49,30 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 	return true, nil
 }
 
+// extraPAXRecords returns the PAX records besides those that are merely how a PAX archive encodes the
+// fields of the header.
+func extraPAXRecords(header tar.Header) map[string]string {
+	ret := make(map[string]string)
+	for key, val := range header.PAXRecords {
+		switch key {
+		case "path", "linkpath", "size", "uid", "gid", "uname", "gname", "mtime", "atime", "ctime":
+			// skip
+		default:
+			ret[key] = val
+		}
+	}
+	return ret
+}
+
 func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.ModTime = a.ModTime
 	b.AccessTime = a.AccessTime
-	b.ModTime = a.ModTime
+	b.ChangeTime = a.ChangeTime
+
+	// Whether a timestamp needs sub-second precision affects which format gets used.
+	b.Format = a.Format
+	a.PAXRecords = extraPAXRecords(a)
+	b.PAXRecords = extraPAXRecords(b)
 
 	return reflect.DeepEqual(a, b)
 }
-- 
2.43.0


From f0496e00cbb9984d666a01fcbe035900adda2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:34 +0000
Subject: [PATCH 25/54] fix: pep440: accept \v as whitespace around a version

---
 pkg/python/pep440/03_tail.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/03_tail.go b/pkg/python/pep440/03_tail.go
index 7c2afd0..287689d 100644
--- a/pkg/python/pep440/03_tail.go
+++ b/pkg/python/pep440/03_tail.go
@@ -568,7 +568,7 @@ import (
 //         r"^\s*" + VERSION_PATTERN + r"\s*$",
 //         re.VERBOSE | re.IGNORECASE,
 //     )
-var reVersion = regexp.MustCompile(`(?i)^\s*` + regexp.MustCompile(`(?:\s+|#.*)`).ReplaceAllString(`
+var reVersion = regexp.MustCompile(`(?i)^[\s\v]*` + regexp.MustCompile(`(?:\s+|#.*)`).ReplaceAllString(`
 		v?
 		(?:
 		    (?:(?P<epoch>[0-9]+)!)?                           # epoch
@@ -597,7 +597,7 @@ var reVersion = regexp.MustCompile(`(?i)^\s*` + regexp.MustCompile(`(?:\s+|#.*)`
 		    )?
 		)
 		(?:\+(?P<local>[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?       # local version
-	`, ``) + `\s*$`)
+	`, ``) + `[\s\v]*$`)
 
 func parseVersion(str string) (*Version, error) {
 	match := reVersion.FindStringSubmatch(str)
-- 
2.43.0


From 578639821e5e39d8ac6e041adb1d8c5ab61dd4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:08 +0000
Subject: [PATCH 26/54] fix: pep440: don't mangle large numbers in local
 versions

---
 pkg/python/pep440/01_version_scheme.go | 17 +++++++++++++----
 pkg/python/pep440/03_tail.go           | 18 +++++++++++++++++-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/pkg/python/pep440/01_version_scheme.go b/pkg/python/pep440/01_version_scheme.go
index 4a23f24..fbbae4e 100644
--- a/pkg/python/pep440/01_version_scheme.go
+++ b/pkg/python/pep440/01_version_scheme.go
@@ -232,9 +232,22 @@ func cmpLocalSegment(a, b *intstr.IntOrString) int {
 	case a != nil && b == nil:
 		return 1
 	}
+	aNum := a.Type == intstr.Int || isDigits(a.StrVal)
+	bNum := b.Type == intstr.Int || isDigits(b.StrVal)
 	switch {
 	case a.Type == intstr.Int && b.Type == intstr.Int:
 		return int(a.IntVal - b.IntVal)
+	case aNum && bNum:
+		// at least one of them is too large to be an intstr.Int
+		aStr, bStr := a.String(), b.String()
+		if d := len(aStr) - len(bStr); d != 0 {
+			return d
+		}
+		return strings.Compare(aStr, bStr)
+	case aNum && !bNum:
+		return 1
+	case !aNum && bNum:
+		return -1
 	case a.Type == intstr.String && b.Type == intstr.String:
 		switch {
 		case a.StrVal < b.StrVal:
@@ -243,10 +256,6 @@ func cmpLocalSegment(a, b *intstr.IntOrString) int {
 			return 1
 		}
 		return 0
-	case a.Type == intstr.Int && b.Type == intstr.String:
-		return 1
-	case a.Type == intstr.String && b.Type == intstr.Int:
-		return -1
 	default:
 		panic("should not happen: invalid intstr.IntOrString")
 	}
diff --git a/pkg/python/pep440/03_tail.go b/pkg/python/pep440/03_tail.go
index 287689d..5858239 100644
--- a/pkg/python/pep440/03_tail.go
+++ b/pkg/python/pep440/03_tail.go
@@ -715,12 +715,28 @@ func parseVersion(str string) (*Version, error) {
 		return strings.ContainsRune("-_.", r)
 	})
 	for _, part := range localParts {
-		ver.Local = append(ver.Local, intstr.Parse(strings.ToLower(part)))
+		ver.Local = append(ver.Local, parseLocalSegment(strings.ToLower(part)))
 	}
 
 	return &ver, nil
 }
 
+func isDigits(str string) bool {
+	return str != "" && strings.Trim(str, "0123456789") == ""
+}
+
+// parseLocalSegment is like intstr.Parse, but doesn't mangle numbers that don't fit in an int32;
+// instead storing those as a string of digits (without leading zeros).
+func parseLocalSegment(str string) intstr.IntOrString {
+	if !isDigits(str) {
+		return intstr.FromString(str)
+	}
+	if n, err := strconv.ParseInt(str, 10, 32); err == nil {
+		return intstr.FromInt(int(n))
+	}
+	return intstr.FromString(strings.TrimLeft(str, "0"))
+}
+
 //
 //
 // Copyright
-- 
2.43.0


From 6baa0c3b76bb1017d80d630938658989079c2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:08 +0000
Subject: [PATCH 27/54] fix: pep440: don't eat the first character of the
 version in < and > clauses

---
 pkg/python/pep440/02_version_specifiers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index a8da602..abc84ae 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -172,10 +172,10 @@ func parseSpecifierClause(str string) (SpecifierClause, error) {
 		str = str[2:]
 	case strings.HasPrefix(str, "<"):
 		ret.CmpOp = CmpOpLT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, ">"):
 		ret.CmpOp = CmpOpGT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, "==="):
 		return ret, fmt.Errorf("specifiers with === are not supported; versions must be PEP 440 compliant")
 	default:
-- 
2.43.0


From 80297b2e90aeb55cc5684cc17ef3fc345ac6410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:08 +0000
Subject: [PATCH 28/54] fix: pep440: don't drop the wildcard when formatting
 specifiers

---
 pkg/python/pep440/02_version_specifiers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index abc84ae..20b2a43 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -214,7 +214,11 @@ func (spec SpecifierClause) String() string {
 	if !ok {
 		panic(fmt.Errorf("invalid CmpOp: %d", spec.CmpOp))
 	}
-	return opStr + spec.Version.String()
+	suffix := ""
+	if spec.CmpOp == CmpOpPrefixMatch || spec.CmpOp == CmpOpPrefixExclude {
+		suffix = ".*"
+	}
+	return opStr + spec.Version.String() + suffix
 }
 
 func (spec SpecifierClause) Match(ver Version) bool {
-- 
2.43.0


From 3c32fd24ae3d28715e3c0ee8051464a672cb8585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:08 +0000
Subject: [PATCH 29/54] fix: pep440: ignore local versions in ordered
 comparison clauses

---
 pkg/python/pep440/02_version_specifiers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 20b2a43..33270e4 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -481,11 +481,11 @@ func matchPrefixExclude(spec, ver Version) bool {
 //
 // Local version identifiers are NOT permitted in this version specifier.
 func matchLE(spec, ver Version) bool {
-	return spec.Cmp(ver) >= 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) >= 0
 }
 
 func matchGE(spec, ver Version) bool {
-	return spec.Cmp(ver) <= 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) <= 0
 }
 
 //
@@ -519,11 +519,11 @@ func matchGE(spec, ver Version) bool {
 //
 // Local version identifiers are NOT permitted in this version specifier.
 func matchLT(spec, ver Version) bool {
-	return spec.Cmp(ver) > 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) > 0
 }
 
 func matchGT(spec, ver Version) bool {
-	return spec.Cmp(ver) < 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) < 0
 }
 
 //
-- 
2.43.0


From 81b409d86dec201cf10ea273db7994ded42a6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:33 +0000
Subject: [PATCH 30/54] fix: pep440: Select: prefer allowed versions over
 excluded versions

---
 pkg/python/pep440/02_version_specifiers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 33270e4..2609cc6 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -630,7 +630,7 @@ func (spec Specifier) Select(choices []Version, exclusionBehavior ExclusionBehav
 	var bestExcluded *Version
 	for _, choice := range choices {
 		if spec.Match(choice) {
-			if exclusionBehavior == nil || !exclusionBehavior.Allow(choice) {
+			if exclusionBehavior == nil || exclusionBehavior.Allow(choice) {
 				if best == nil || best.Cmp(choice) < 0 {
 					val := choice
 					best = &val
-- 
2.43.0


From f1ebcd3afee3dbd46c8adfbfe47e22a465f52427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:33 +0000
Subject: [PATCH 31/54] fix: pep592: ExcludeYanked: exclude the yanked
 versions, not the others

---
 pkg/python/pep592/yank.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 98e6eab..73df8b4 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -15,26 +15,36 @@ func IsYanked(l pep503.FileLink) bool {
 }
 
 type excludeYanked struct {
-	yankedVersions map[string]struct{}
+	yankedVersions   []pep440.Version
+	unyankedVersions []pep440.Version
 }
 
+// ExcludeYanked returns an ExclusionBehavior that excludes the versions that only have yanked files.
 func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
-	ret := excludeYanked{
-		yankedVersions: make(map[string]struct{}),
-	}
+	var ret excludeYanked
 	for _, link := range links {
+		fileInfo, err := bdist.ParseFilename(link.Text)
+		if err != nil {
+			continue
+		}
 		if IsYanked(link) {
-			fileInfo, err := bdist.ParseFilename(link.Text)
-			if err != nil {
-				continue
-			}
-			ret.yankedVersions[fileInfo.Version.String()] = struct{}{}
+			ret.yankedVersions = append(ret.yankedVersions, fileInfo.Version)
+		} else {
+			ret.unyankedVersions = append(ret.unyankedVersions, fileInfo.Version)
 		}
 	}
 	return ret
 }
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
-	_, yanked := e.yankedVersions[v.String()]
-	return yanked
+	return !containsVersion(e.yankedVersions, v) || containsVersion(e.unyankedVersions, v)
+}
+
+func containsVersion(haystack []pep440.Version, needle pep440.Version) bool {
+	for _, straw := range haystack {
+		if straw.Cmp(needle) == 0 {
+			return true
+		}
+	}
+	return false
 }
-- 
2.43.0


From 83ff58f52cc6a402b70831b210fdf0966ccfb9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:56 +0000
Subject: [PATCH 32/54] fix: simple_repo_api: SelectWheel: don't choose yanked
 files, or mistake 1.0 for 1.0.0

---
 .../pypa/simple_repo_api/pypa_repo_api.go     | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 3092c07..a2979b2 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -47,9 +47,10 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		return nil, err
 	}
 	// 1. Filter by version
-	version2links := make(map[string][]pep503.FileLink)
 	var whlLinks []pep503.FileLink //nolint:prealloc // 'continue' is quite likely
 	var versions []pep440.Version  //nolint:prealloc // 'continue' is quite likely
+	var unyankedLinks []pep503.FileLink
+	var unyankedVersions []pep440.Version
 	for _, link := range links {
 		linkInfo, err := bdist.ParseFilename(link.Text)
 		if err != nil {
@@ -58,9 +59,16 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		if !c.SupportedTags.Supports(linkInfo.CompatibilityTag) {
 			continue
 		}
-		version2links[linkInfo.Version.String()] = append(version2links[linkInfo.Version.String()], link)
 		whlLinks = append(whlLinks, link)
 		versions = append(versions, linkInfo.Version)
+		if !pep592.IsYanked(link) {
+			unyankedLinks = append(unyankedLinks, link)
+			unyankedVersions = append(unyankedVersions, linkInfo.Version)
+		}
+	}
+	if version.Select(unyankedVersions, nil) != nil {
+		// only consider yanked files if there's nothing else
+		whlLinks, versions = unyankedLinks, unyankedVersions
 	}
 	selectedVersion := version.Select(versions, pep440.MultiExcluder{
 		pep440.ExcludePreReleases{
@@ -71,7 +79,12 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	if selectedVersion == nil {
 		return nil, fmt.Errorf("no matches for %q %q", pkgname, version.String())
 	}
-	links = version2links[selectedVersion.String()]
+	links = nil
+	for i, link := range whlLinks {
+		if versions[i].Cmp(*selectedVersion) == 0 {
+			links = append(links, link)
+		}
+	}
 	if len(links) == 1 {
 		ret := links[0]
 		return &ret, nil
-- 
2.43.0


From ed750403bad9b6fa1b84a2579e10b70ece9d902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:56 +0000
Subject: [PATCH 33/54] fix: simple_repo_api: SelectWheel: prefer the highest
 build tag

---
 pkg/python/pypa/simple_repo_api/pypa_repo_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index a2979b2..a699cbc 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -112,7 +112,7 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	sort.Slice(links, func(i, j int) bool {
 		iInfo, _ := bdist.ParseFilename(links[i].Text)
 		jInfo, _ := bdist.ParseFilename(links[j].Text)
-		return iInfo.BuildTag.Cmp(jInfo.BuildTag) < 0
+		return iInfo.BuildTag.Cmp(jInfo.BuildTag) > 0
 	})
 	ret := links[0]
 	return &ret, nil
-- 
2.43.0


From 700541f29fecfcdfe28a5011c1d6c54bc13e71a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:56 +0000
Subject: [PATCH 34/54] fix: bdist: ParseFilename: don't mangle large build
 numbers

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 7acf809..592d682 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -564,7 +564,10 @@ func ParseFilename(filename string) (*FileNameData, error) {
 	ret.Version = *ver
 
 	if buildN := match[reFilename.SubexpIndex("build_n")]; buildN != "" {
-		n, _ := strconv.Atoi(buildN)
+		n, err := strconv.Atoi(buildN)
+		if err != nil {
+			return nil, fmt.Errorf("invalid wheel filename: %q: build tag: %w", filename, err)
+		}
 		ret.BuildTag = &BuildTag{
 			Int: n,
 			Str: match[reFilename.SubexpIndex("build_l")],
-- 
2.43.0


From 6b160c5664fa8073eca61dedeb7cad0f37450963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:56 +0000
Subject: [PATCH 35/54] fix: bdist: GenerateFilename: don't generate filenames
 that don't parse back

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 592d682..7298974 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -656,6 +656,13 @@ func GenerateFilename(data FileNameData) (string, error) {
 	ret.WriteString("-")
 	ret.WriteString(compat)
 	ret.WriteString(".whl")
+	parsed, err := ParseFilename(ret.String())
+	if err != nil {
+		return "", err
+	}
+	if parsed.BuildTag.Cmp(data.BuildTag) != 0 {
+		return "", fmt.Errorf("invalid build tag: %q", data.BuildTag)
+	}
 	return ret.String(), nil
 }
 
-- 
2.43.0


From 322c21cbf76c19d8c0fec39d52602b70df0f8b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:56 +0000
Subject: [PATCH 36/54] fix: python: VersionInfo.PEP440: don't drop the serial
 number of pre-releases

---
 pkg/python/platform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/python/platform.go b/pkg/python/platform.go
index ffb6860..32f31d2 100644
--- a/pkg/python/platform.go
+++ b/pkg/python/platform.go
@@ -43,11 +43,11 @@ func (vi VersionInfo) PEP440() (*pep440.Version, error) {
 	}
 	switch vi.ReleaseLevel {
 	case "alpha":
-		ret.Pre = &pep440.PreRelease{L: "a", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "a", N: vi.Serial}
 	case "beta":
-		ret.Pre = &pep440.PreRelease{L: "b", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "b", N: vi.Serial}
 	case "candidate":
-		ret.Pre = &pep440.PreRelease{L: "rc", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial}
 	case "final":
 		ret.Pre = nil
 	default:
-- 
2.43.0


From e3964d4a2e8e3486f0d1692ea59995264aa48243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:50 +0000
Subject: [PATCH 37/54] fix: pep440: don't overflow when comparing large
 post-release numbers

---
 pkg/python/pep440/01_version_scheme.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/python/pep440/01_version_scheme.go b/pkg/python/pep440/01_version_scheme.go
index fbbae4e..b87dcef 100644
--- a/pkg/python/pep440/01_version_scheme.go
+++ b/pkg/python/pep440/01_version_scheme.go
@@ -517,15 +517,16 @@ func cmpPreRelease(a, b PublicVersion) int {
 //    pre-release by incrementing the numeric component.
 
 func cmpPostRelease(a, b PublicVersion) int {
-	aPost := -1
-	if a.Post != nil {
-		aPost = *a.Post
-	}
-	bPost := -1
-	if b.Post != nil {
-		bPost = *b.Post
+	switch {
+	case a.Post == nil && b.Post == nil:
+		return 0
+	case a.Post == nil && b.Post != nil:
+		return -1
+	case a.Post != nil && b.Post == nil:
+		return 1
+	default:
+		return (*a.Post) - (*b.Post)
 	}
-	return aPost - bPost
 }
 
 //
-- 
2.43.0


From a666e921a15e66aab37531c0d2414fb4383640c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:46 +0000
Subject: [PATCH 38/54] fix: pep503: don't skip the checksum of links with a
 malformed fragment

---
 pkg/python/pep503/simple_repo_api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index fba7170..0ebc0e5 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -89,7 +89,9 @@ func (c Client) get(ctx context.Context, requestURL string) (_ *url.URL, _ []byt
 		return nil, nil, &HTTPError{Status: resp.Status, StatusCode: resp.StatusCode}
 	}
 	if u, err := url.Parse(requestURL); err == nil && u.Fragment != "" {
-		if keyvals, err := url.ParseQuery(u.Fragment); err == nil {
+		if keyvals, err := url.ParseQuery(u.Fragment); err != nil {
+			return nil, nil, fmt.Errorf("invalid checksum: %q: %w", u.Fragment, err)
+		} else {
 			for key, vals := range keyvals {
 				for _, val := range vals {
 					newHasher := python.HashlibAlgorithmsGuaranteed[key]
-- 
2.43.0


From 351fe57c6e794c0dc1c888c839171a0324149513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:46 +0000
Subject: [PATCH 39/54] fix: pep503: GetSignature: get the signature, not the
 file

---
 pkg/python/pep503/simple_repo_api.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index 0ebc0e5..1649e5f 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -290,14 +290,26 @@ func (l FileLink) Get(ctx context.Context) ([]byte, error) {
 var ErrNoSignature = errors.New("no signature")
 
 func (l FileLink) GetSignature(ctx context.Context) ([]byte, error) {
+	// "a GPG signature [...] MUST live alongside that file with the same name with a `.asc`
+	// appended to it"
+	sigURL, err := url.Parse(l.HRef)
+	if err != nil {
+		return nil, err
+	}
+	sigURL.Path += ".asc"
+	if sigURL.RawPath != "" {
+		sigURL.RawPath += ".asc"
+	}
+	sigURL.Fragment = "" // it's the checksum of the file, not of the signature
+	sigURL.RawFragment = ""
 	switch l.DataAttrs["data-gpg-sig"] {
 	case "false":
 		return nil, ErrNoSignature
 	case "true":
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL.String())
 		return content, err
 	default:
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL.String())
 		var httpErr *HTTPError
 		if err != nil && errors.As(err, &httpErr) && httpErr.StatusCode == http.StatusNotFound {
 			err = ErrNoSignature
-- 
2.43.0


From f6526e30fc7e59a30ebf4e29b28952f97e3d2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:47 +0000
Subject: [PATCH 40/54] fix: pep503: PackageLink.ListFiles: honor
 data-requires-python

---
 pkg/python/pep503/simple_repo_api.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index 1649e5f..8d10a39 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -224,14 +224,7 @@ func (l PackageLink) ListFiles(ctx context.Context) ([]FileLink, error) {
 	if err != nil {
 		return nil, err
 	}
-	links := make([]FileLink, 0, len(rawLinks))
-	for _, link := range rawLinks {
-		links = append(links, FileLink{
-			client: l.client,
-			Link:   link,
-		})
-	}
-	return links, nil
+	return l.client.fileLinks(rawLinks), nil
 }
 
 func normalize(str string) string {
@@ -263,6 +256,11 @@ func (c Client) ListPackageFiles(ctx context.Context, pkgname string) ([]FileLin
 	if err != nil {
 		return nil, err
 	}
+	return c.fileLinks(rawLinks), nil
+}
+
+// fileLinks returns the links that are usable by c.Python.
+func (c Client) fileLinks(rawLinks []Link) []FileLink {
 	links := make([]FileLink, 0, len(rawLinks))
 	for _, link := range rawLinks {
 		if c.Python != nil {
@@ -279,7 +277,7 @@ func (c Client) ListPackageFiles(ctx context.Context, pkgname string) ([]FileLin
 			Link:   link,
 		})
 	}
-	return links, nil
+	return links
 }
 
 func (l FileLink) Get(ctx context.Context) ([]byte, error) {
-- 
2.43.0


From d1288390bb9a6dc53fc66ca3d8937eaea6425cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:17 +0000
Subject: [PATCH 41/54] fix: fsutil: LayersEqualExceptTimestamps: read the
 layers to the end

---
 pkg/fsutil/diff.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index 48f2b87..b96bf9e 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -132,5 +132,13 @@ func LayersEqualExceptTimestamps(aLayer, bLayer ociv1.Layer) (equal bool, err er
 		}
 	}
 
+	// The tar reader stops at the end-of-archive marker; make sure that the rest of the stream
+	// (for instance, a checksum at the end of it) is good too.
+	for _, reader := range []io.Reader{aIOReader, bIOReader} {
+		if _, err := io.Copy(io.Discard, reader); err != nil {
+			return false, err
+		}
+	}
+
 	return true, nil
 }
-- 
2.43.0


From c518b24b718f1501b7219c47fccdc4c8251d70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:04 +0000
Subject: [PATCH 42/54] fix: python: use the right values for the
 FileAttributeXXX constants

---
 pkg/python/stat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/stat.go b/pkg/python/stat.go
index fa75b76..66a2841 100644
--- a/pkg/python/stat.go
+++ b/pkg/python/stat.go
@@ -197,7 +197,7 @@ const (
 	FileAttributeNormal    StatFileAttribute = StatFileAttribute(_DOSUnused7)
 
 	// 1<<8 through 1<<15
-	FileAttributeTemporary StatFileAttribute = 1 << (8 + iota)
+	FileAttributeTemporary StatFileAttribute = 1 << iota
 	FileAttributeSparseFile
 	FileAttributeReparsePoint
 	FileAttributeCompressed
@@ -211,6 +211,8 @@ const (
 	FileAttributeNoScrubData
 	FileAttributeRecallOnOpen // not in Python 3.9.1 stat.py
 	_FileattributeUnused19
+	_FileattributeUnused20
+	_FileattributeUnused21
 	FileAttributeRecallOnDataAccess // not in Python 3.9.1 stat.py
 )
 
-- 
2.43.0


From 4a77e56e8039c4d1c4f64375d79b384cb8da985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:56 +0000
Subject: [PATCH 43/54] fix: python: ConfigParser: agree with Python's
 configparser

- a blank line ends the value if EmptyLinesInValues is not set
- an inline comment must be preceded by whitespace or start the line
- text after a section header is ignored; [] isn't a section header
- refuse an empty option name
- the DEFAULT section supplies defaults for the other sections
- whitespace and indentation are counted the way Python counts them
---
 pkg/python/configparser.go | 64 +++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index deb6eb5..2f80c3c 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -6,8 +6,10 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 type Config map[string]ConfigSection
@@ -46,6 +48,7 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 	config := make(Config)
 
 	var (
+		defaults       = make(ConfigSection)
 		curIndentLevel int
 		curSection     ConfigSection
 		curKey         string
@@ -75,18 +78,17 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		// strip comments and whitespace
 		commentStart := len(line)
 		for _, commentPrefix := range p.InlineCommentPrefixes {
-			index := strings.Index(line, commentPrefix)
-			if index > 0 && index < commentStart {
+			if index := inlineCommentIndex(line, commentPrefix); index >= 0 && index < commentStart {
 				commentStart = index
 			}
 		}
 		for _, commentPrefix := range p.CommentPrefixes {
-			if strings.HasPrefix(strings.TrimSpace(line), commentPrefix) {
+			if strings.HasPrefix(strings.TrimFunc(line, isSpace), commentPrefix) {
 				commentStart = 0
 				break
 			}
 		}
-		value := strings.TrimSpace(line[:commentStart])
+		value := strings.TrimFunc(line[:commentStart], isSpace)
 		// handle empty lines
 		if value == "" {
 			if p.EmptyLinesInValues {
@@ -96,27 +98,32 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 					curVal = append(curVal, value)
 				}
 			} else {
-				curIndentLevel = 0
+				// an empty line marks the end of the value
+				curIndentLevel = math.MaxInt
 			}
 			continue
 		}
 
 		lineIndentLevel := 0
-		for i, r := range line {
-			if !unicode.IsSpace(r) {
-				lineIndentLevel = i
+		for _, r := range line {
+			if !isSpace(r) {
 				break
 			}
+			lineIndentLevel++
 		}
 		switch {
 		case curVal != nil && lineIndentLevel > 0 && lineIndentLevel > curIndentLevel:
 			// continuation line
 			curVal = append(curVal, value)
-		case strings.HasPrefix(value, "[") && strings.HasSuffix(value, "]"):
+		case strings.HasPrefix(value, "[") && strings.LastIndex(value, "]") > 1:
 			// section header
 			flushKV()
 			curIndentLevel = lineIndentLevel
-			sectName := strings.TrimSuffix(strings.TrimPrefix(value, "["), "]")
+			sectName := value[1:strings.LastIndex(value, "]")]
+			if sectName == defaultSection {
+				curSection = defaults
+				continue
+			}
 			if _, exists := config[sectName]; !exists {
 				config[sectName] = make(ConfigSection)
 			} else if p.Strict {
@@ -143,9 +150,13 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 			if sepPos == len(value) {
 				return nil, fmt.Errorf("line %d: invalid line: %q", lineno, value)
 			}
-			curKey = p.OptionTransform(strings.TrimSpace(value[:sepPos]))
+			curKey = strings.TrimRightFunc(value[:sepPos], isSpace)
+			if curKey == "" {
+				return nil, fmt.Errorf("line %d: invalid line: %q", lineno, value)
+			}
+			curKey = p.OptionTransform(curKey)
 			curVal = []string{
-				strings.TrimSpace(value[sepPos+sepLen:]),
+				strings.TrimFunc(value[sepPos+sepLen:], isSpace),
 			}
 			if _, exists := curSection[curKey]; p.Strict && exists {
 				return nil, fmt.Errorf("line %d: duplicate option name %q", lineno, curKey)
@@ -155,6 +166,11 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 	flushKV()
 
 	for sect := range config {
+		for key, val := range defaults {
+			if _, exists := config[sect][key]; !exists {
+				config[sect][key] = val
+			}
+		}
 		for key, val := range config[sect] {
 			var err error
 			config[sect][key], err = p.Interpolate(config, val)
@@ -167,6 +183,30 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 	return config, nil
 }
 
+// defaultSection is the name of the section that provides default values for all other sections.
+const defaultSection = "DEFAULT"
+
+// isSpace mimics Python `str.isspace()`.
+func isSpace(r rune) bool {
+	return unicode.IsSpace(r) || ('\x1c' <= r && r <= '\x1f')
+}
+
+// inlineCommentIndex returns the position in the line of the first commentPrefix that is at the
+// beginning of the line or is preceded by whitespace, or -1.
+func inlineCommentIndex(line, commentPrefix string) int {
+	for pos := 0; pos < len(line); pos++ {
+		index := strings.Index(line[pos:], commentPrefix)
+		if index < 0 {
+			break
+		}
+		pos += index
+		if prev, _ := utf8.DecodeLastRuneInString(line[:pos]); pos == 0 || isSpace(prev) {
+			return pos
+		}
+	}
+	return -1
+}
+
 func NoInterpolation(_ Config, val string) (string, error) {
 	return val, nil
 }
-- 
2.43.0


From cb017c44d448f684b0a295d1f3f4801a024bea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:19 +0000
Subject: [PATCH 44/54] fix: pyinspect: ImageFS.Stat: handle paths that are not
 in canonical form

For example, a scheme directory with a trailing slash, or "/" itself.
---
 pkg/python/pyinspect/fs_image.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_image.go b/pkg/python/pyinspect/fs_image.go
index d22343c..3c5a21b 100644
--- a/pkg/python/pyinspect/fs_image.go
+++ b/pkg/python/pyinspect/fs_image.go
@@ -100,7 +100,11 @@ func (sys *ImageFS) Stat(name string) (FileInfo, error) {
 	if err := sys.ensureInitialized(); err != nil {
 		return nil, err
 	}
-	fileinfo, err := fs.Stat(sys.imgFS, name[1:])
+	fsname := strings.TrimPrefix(path.Clean(name), "/")
+	if fsname == "" {
+		fsname = "."
+	}
+	fileinfo, err := fs.Stat(sys.imgFS, fsname)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cb248dbc4804f02920ece1e94db64685f9c2049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:19 +0000
Subject: [PATCH 45/54] fix: pyinspect: NativeFS.Stat: allow owners that do not
 have a name

Failing the stat() meant that `ocibuild python inspect` would skip that
directory and report the owner of a different one.
---
 pkg/python/pyinspect/fs_native.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pkg/python/pyinspect/fs_native.go b/pkg/python/pyinspect/fs_native.go
index 25cc0e4..d465b06 100644
--- a/pkg/python/pyinspect/fs_native.go
+++ b/pkg/python/pyinspect/fs_native.go
@@ -1,6 +1,7 @@
 package pyinspect
 
 import (
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -26,21 +27,25 @@ func (NativeFS) Stat(name string) (FileInfo, error) {
 		return nil, err
 	}
 	raw := fileinfo.Sys().(*syscall.Stat_t) //nolint:forcetypeassert // if not, this is a bug and it should crash
-	usr, err := user.LookupId(fmt.Sprintf("%v", raw.Uid))
-	if err != nil {
+	ret := &fileInfo{ //nolint:exhaustivestruct
+		FileInfo: fileinfo,
+		uid:      int(raw.Uid),
+		gid:      int(raw.Gid),
+	}
+	// It is OK for a numeric ID to not have a name.
+	var unknownUser user.UnknownUserIdError
+	if usr, err := user.LookupId(fmt.Sprintf("%v", raw.Uid)); err == nil {
+		ret.uname = usr.Username
+	} else if !errors.As(err, &unknownUser) {
 		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
 	}
-	grp, err := user.LookupGroupId(fmt.Sprintf("%v", raw.Gid))
-	if err != nil {
+	var unknownGroup user.UnknownGroupIdError
+	if grp, err := user.LookupGroupId(fmt.Sprintf("%v", raw.Gid)); err == nil {
+		ret.gname = grp.Name
+	} else if !errors.As(err, &unknownGroup) {
 		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
 	}
-	return &fileInfo{
-		FileInfo: fileinfo,
-		uid:      int(raw.Uid),
-		gid:      int(raw.Gid),
-		uname:    usr.Username,
-		gname:    grp.Name,
-	}, nil
+	return ret, nil
 }
 
 func (NativeFS) LookPath(file string) (string, error) {
-- 
2.43.0


From c2e9809e8395ad4741c478f7e87850aebf1377fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:19 +0000
Subject: [PATCH 46/54] fix: pyinspect: NativeFS.LookPath: always return an
 absolute path

A relative path is not useful in a shebang, and for "./python3" it also
meant looking for "pythonw3" in $PATH rather than beside "./python3".
---
 pkg/python/pyinspect/fs_native.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_native.go b/pkg/python/pyinspect/fs_native.go
index d465b06..2685c1c 100644
--- a/pkg/python/pyinspect/fs_native.go
+++ b/pkg/python/pyinspect/fs_native.go
@@ -59,6 +59,7 @@ func (NativeFS) LookPath(file string) (string, error) {
 				Err:  eerr.Err,
 			}
 		}
+		return val, err
 	}
-	return val, err
+	return filepath.Abs(val)
 }
-- 
2.43.0


From eb836ce7dd95ee84138f2e3566065a64e9ddc6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:38 +0000
Subject: [PATCH 47/54] fix: dockerutil: do not give the same tag to concurrent
 uses

The clock does not necessarily tick between two calls.
---
 pkg/dockerutil/docker.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/dockerutil/docker.go b/pkg/dockerutil/docker.go
index 061bb3d..43f10f2 100644
--- a/pkg/dockerutil/docker.go
+++ b/pkg/dockerutil/docker.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"os"
+	"sync/atomic"
 	"time"
 
 	"github.com/datawire/dlib/dexec"
@@ -12,9 +13,12 @@ import (
 	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
 )
 
+// tagCounter keeps tags created at the same instant distinct.
+var tagCounter uint64
+
 func newTag(repo string) (name.Tag, error) {
-	return name.NewTag(fmt.Sprintf("ocibuild.local/%s:%d.%d",
-		repo, os.Getpid(), time.Now().UnixNano()))
+	return name.NewTag(fmt.Sprintf("ocibuild.local/%s:%d.%d.%d",
+		repo, os.Getpid(), time.Now().UnixNano(), atomic.AddUint64(&tagCounter, 1)))
 }
 
 func WithImage(
-- 
2.43.0


From 40cf0ff55cec0e50e02709d3af52c6ffa22149cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:38 +0000
Subject: [PATCH 48/54] fix: dockerutil: remove the image even if the Context
 has been canceled

---
 pkg/dockerutil/docker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/dockerutil/docker.go b/pkg/dockerutil/docker.go
index 43f10f2..79f0af0 100644
--- a/pkg/dockerutil/docker.go
+++ b/pkg/dockerutil/docker.go
@@ -7,6 +7,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/datawire/dlib/dcontext"
 	"github.com/datawire/dlib/dexec"
 	"github.com/google/go-containerregistry/pkg/name"
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -38,7 +39,9 @@ func WithImage(
 		return err
 	}
 	defer func() {
-		maybeSetErr(dexec.CommandContext(ctx, "docker", "image", "rm", tag.String()).Run())
+		// Clean up even if ctx has been canceled.
+		maybeSetErr(dexec.CommandContext(dcontext.WithoutCancel(ctx),
+			"docker", "image", "rm", tag.String()).Run())
 	}()
 	cmd := dexec.CommandContext(ctx, "docker", "image", "load")
 	pipe, err := cmd.StdinPipe()
-- 
2.43.0


From 49e4f1270a84b6cf6c83fe02f924a42ba825d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:21 +0000
Subject: [PATCH 49/54] fix: cliutil: keep on wrapping after a word that does
 not fit on a line

---
 pkg/cliutil/borrowed_pflag.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/cliutil/borrowed_pflag.go b/pkg/cliutil/borrowed_pflag.go
index c1cbd5e..eff520b 100644
--- a/pkg/cliutil/borrowed_pflag.go
+++ b/pkg/cliutil/borrowed_pflag.go
@@ -1,4 +1,4 @@
-// This file contains code copied verbatim from pflag.
+// This file contains code copied from pflag; modifications are marked "MODIFIED".
 //
 // Copyright (c) 2012 Alex Ogier. All rights reserved.
 // Copyright (c) 2009, 2012 The Go Authors. All rights reserved.
@@ -47,7 +47,15 @@ func wrapN(i, slop int, s string) (string, string) {
 
 	w := strings.LastIndexAny(s[:i], " \t\n")
 	if w <= 0 {
-		return s, ""
+		// MODIFIED: FROM: return s, ""
+		//
+		// The first word doesn't fit; put it on a line of its own rather than giving up on
+		// wrapping everything that comes after it.
+		end := strings.IndexAny(s[i:], " \t\n")
+		if end < 0 {
+			return s, ""
+		}
+		return s[:i+end], s[i+end+1:]
 	}
 	nlPos := strings.LastIndex(s[:i], "\n")
 	if nlPos > 0 && nlPos < w {
-- 
2.43.0


From 94186396a8569ea4d9a447d72fbea427859a897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:54 +0000
Subject: [PATCH 50/54] fix: entry_points: Make the hook safe for concurrent
 use

---
 pkg/python/pypa/entry_points/entry_points.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 0afe182..e08dc5b 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -55,6 +55,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 		vfs map[string]fsutil.FileReference,
 		installedDistInfoDir string,
 	) error {
+		plat := plat // .Init() modifies it, and the hook may be called concurrently
 		if err := plat.Init(); err != nil {
 			return err
 		}
-- 
2.43.0


From 9f880569025d1391319852324a0449113d7711b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:00 +0000
Subject: [PATCH 51/54] fix: keep escaped slashes of the index URL when listing
 a project

---
 pkg/python/pep503/simple_repo_api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index 8d10a39..fa9d626 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -252,6 +252,9 @@ func (c Client) ListPackageFiles(ctx context.Context, pkgname string) ([]FileLin
 		return nil, err
 	}
 	u.Path = path.Join(u.Path, normalize(pkgname))
+	if u.RawPath != "" {
+		u.RawPath = path.Join(u.RawPath, normalize(pkgname))
+	}
 	rawLinks, err := c.getHTML5Index(ctx, u.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f4285f3cb64ca4416a2be8d73a7c9a5283dcb6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:56 +0000
Subject: [PATCH 52/54] fix: squash: read layers to the end, and report errors
 closing them

The tar reader stops at the end-of-archive marker, so a bad checksum at the
end of a compressed layer went unnoticed.
---
 pkg/squash/readlayer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/squash/readlayer.go b/pkg/squash/readlayer.go
index 1971833..2126e89 100644
--- a/pkg/squash/readlayer.go
+++ b/pkg/squash/readlayer.go
@@ -25,13 +25,17 @@ type layerFS struct {
 // consistent querying:
 //
 //  - Paths are always path.Clean()'d (notably, directories do NOT contain trailing "/").
-func parseLayer(layer ociv1.Layer, omitContent bool) (*layerFS, error) {
+func parseLayer(layer ociv1.Layer, omitContent bool) (_ *layerFS, err error) {
 	lfs := new(layerFS)
 	layerReader, err := layer.Uncompressed()
 	if err != nil {
 		return nil, fmt.Errorf("reading layer contents: %w", err)
 	}
-	defer layerReader.Close()
+	defer func() {
+		if _err := layerReader.Close(); _err != nil && err == nil {
+			err = fmt.Errorf("closing layer: %w", _err)
+		}
+	}()
 	tarReader := tar.NewReader(layerReader)
 	for {
 		header, err := tarReader.Next()
@@ -70,5 +74,10 @@ func parseLayer(layer ociv1.Layer, omitContent bool) (*layerFS, error) {
 			lfs.Files = append(lfs.Files, entry)
 		}
 	}
+	// The tar reader stops at the end-of-archive marker; make sure that the rest of the stream
+	// (for instance, a checksum at the end of it) is good too.
+	if _, err := io.Copy(io.Discard, layerReader); err != nil {
+		return nil, fmt.Errorf("reading layer contents: %w", err)
+	}
 	return lfs, nil
 }
-- 
2.43.0


From a8e2a093b2c31d585fec7e1d89caa7c8ddee8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:35 +0000
Subject: [PATCH 53/54] fix: squash: resolve ".." in symlink targets the way
 that an OS does

If "foo" is a symlink then "foo/../bar" isn't "bar".
---
 pkg/squash/squash.go |  3 +-
 pkg/squash/vfs.go    | 70 ++++++++++++++++++++++++++++----------------
 2 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/pkg/squash/squash.go b/pkg/squash/squash.go
index 6a32d67..88eac0b 100644
--- a/pkg/squash/squash.go
+++ b/pkg/squash/squash.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"io"
 	"io/fs"
+	"path"
 
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
 	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
@@ -42,7 +43,7 @@ func loadLayers(layers []ociv1.Layer, omitContent bool) (*fsfile, error) {
 			if file.Header.Typeflag == tar.TypeLink {
 				// If the target isn't in the layers we've been given, then leave it as a
 				// by-name reference to something in a lower layer.
-				target, _ = fsGet(root, file.Header.Linkname, false, false)
+				target, _ = fsGet(root, path.Clean(file.Header.Linkname), false, false)
 			}
 			if err := vfsFile.Set(file.Header, file.Body); err != nil {
 				return nil, err
diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 0204378..038c485 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -36,32 +36,29 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 
 // fsGetNested implements fsGet; nLinks counts how many symlinks have been followed so far.
 func fsGetNested(dir *fsfile, pathname string, create, followLinks bool, nLinks *int) (*fsfile, error) {
-	pathname = path.Clean(pathname)
-
-	done := 0 // index of the next byte in pathname to look at
-
 	// handle absolute paths
 	if path.IsAbs(pathname) {
 		for dir.parent != dir {
 			dir = dir.parent
 		}
-		done++
 	}
 
+	// Don't path.Clean() the pathname; "foo/../bar" isn't "bar" if "foo" is a symlink.
+	parts := strings.FieldsFunc(pathname, func(r rune) bool { return r == '/' })
+	if len(parts) == 0 {
+		parts = []string{"."}
+	}
+	last := len(parts) - 1
+
 	// crawl the tree
-	for {
-		slash := strings.Index(pathname[done:], "/")
-		if slash < 0 {
-			break
-		}
+	for _, part := range parts[:last] {
 		var err error
-		dir, err = dir.getNested(pathname[done:done+slash], create, false, nLinks)
-		done += slash + 1
+		dir, err = dir.getNested(part, create, false, nLinks)
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.getNested(pathname[done:], create, followLinks, nLinks)
+	ret, err := dir.getNested(parts[last], create, followLinks, nLinks)
 	if err != nil {
 		return nil, err
 	}
@@ -84,23 +81,27 @@ func (f *fsfile) getNested(child string, create, followLinks bool, nLinks *int)
 	var ret *fsfile
 
 	switch child {
-	case "..":
-		ret = f.parent
 	case ".":
 		ret = f
-	default:
-		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			*nLinks++
-			newF, err := fsGetNested(f.parent, f.header.Linkname, create, true, nLinks)
-			if err != nil {
-				return nil, &fs.PathError{
-					Op:   "vfs.readlink(dir)",
-					Path: "/" + f.name,
-					Err:  err,
-				}
+	case "..":
+		dir, err := f.followDir(create, nLinks)
+		if err != nil {
+			return nil, err
+		}
+		if !create && dir.header != nil && dir.header.Typeflag != tar.TypeDir {
+			return nil, &fs.PathError{
+				Op:   "vfs.readdir",
+				Path: "/" + dir.name,
+				Err:  ErrNotDir,
 			}
-			f = newF
 		}
+		ret = dir.parent
+	default:
+		newF, err := f.followDir(create, nLinks)
+		if err != nil {
+			return nil, err
+		}
+		f = newF
 		// Accessing "foo/bar" implies that "foo" is a directory; if it isn't, then white it
 		// out.
 		if f.header != nil && f.header.Typeflag != tar.TypeDir {
@@ -174,6 +175,23 @@ func (f *fsfile) getNested(child string, create, followLinks bool, nLinks *int)
 	return ret, nil
 }
 
+// followDir returns what f refers to when it is used as a directory: itself, unless it is a symlink.
+func (f *fsfile) followDir(create bool, nLinks *int) (*fsfile, error) {
+	if f.header == nil || f.header.Typeflag != tar.TypeSymlink {
+		return f, nil
+	}
+	*nLinks++
+	target, err := fsGetNested(f.parent, f.header.Linkname, create, true, nLinks)
+	if err != nil {
+		return nil, &fs.PathError{
+			Op:   "vfs.readlink(dir)",
+			Path: "/" + f.name,
+			Err:  err,
+		}
+	}
+	return target, nil
+}
+
 func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 	if hdr != nil {
 		_hdr := *hdr
-- 
2.43.0


From ee94f8685466896ee32df3e6d29d1c2fddeabfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 54/54] fix: squash: don't have the encoding of a name depend
 on how the original was encoded

---
 pkg/squash/vfs.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 038c485..8ee495d 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -259,6 +259,24 @@ func (f *fsfile) linkTo(target *fsfile) {
 	f.body = target.body
 }
 
+// extraPAXRecords returns the PAX records besides those that are merely how the archive that the header
+// was read from encoded the fields of the header; whether those are needed in the archive being
+// written must not depend on that (the name may have changed, or be that of a hardlink).
+func extraPAXRecords(records map[string]string) map[string]string {
+	ret := make(map[string]string)
+	for key, val := range records {
+		switch key {
+		case "path", "linkpath", "size", "uid", "gid", "uname", "gname", "mtime", "atime", "ctime":
+			// skip
+		default:
+			if !strings.HasPrefix(key, "GNU.sparse.") {
+				ret[key] = val
+			}
+		}
+	}
+	return ret
+}
+
 func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 	return f.writeTo(tarWriter, make(map[*tar.Header]string))
 }
@@ -279,6 +297,7 @@ func (f *fsfile) writeTo(tarWriter *tar.Writer, written map[*tar.Header]string)
 			// that might not be able to encode the new name.
 			hdr.Format = tar.FormatUnknown
 		}
+		hdr.PAXRecords = extraPAXRecords(hdr.PAXRecords)
 		body := f.body
 		if linkname, ok := written[f.header]; ok {
 			hdr.Typeflag = tar.TypeLink
-- 
2.43.0

