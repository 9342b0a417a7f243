From 7dcb7bd0a171faf6eff59d1fe7327d87700c70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 01/72] fix: read output of a spawned command until end of file

When the write end of a pipe was closed while more data than a single read
was pending, the rest of the command output was lost. An interrupted poll
dropped all further output.
---
 spawn.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/spawn.c b/spawn.c
index aa25837..cdfaf51 100644
--- a/spawn.c
+++ b/spawn.c
@@ -396,6 +396,10 @@ int spawn_do(struct spawn *s) {
       while (c > 0) {
         int ret = poll(fds, sizeof(fds) / sizeof(fds[0]), -1);
         if (ret == -1) {
+          if (errno == EINTR) {
+            continue;
+          }
+          rc = errno;
           break;
         }
         for (int i = 0; i < sizeof(fds) / sizeof(fds[0]); ++i) {
@@ -403,7 +407,9 @@ int spawn_do(struct spawn *s) {
             continue;
           }
           short revents = fds[i].revents;
-          if (revents & POLLIN) {
+          bool eof = revents & POLLNVAL;
+          if (revents & (POLLIN | POLLERR | POLLHUP)) {
+            // A hung up pipe may still hold data, read until EOF is reached.
             ssize_t n = read(fds[i].fd, buf, sizeof(buf) - 1);
             if (n > 0) {
               buf[n] = '\0';
@@ -412,13 +418,14 @@ int spawn_do(struct spawn *s) {
               } else {
                 s->stderr_handler(buf, n, s);
               }
-            } else if (n == -1 && errno != EAGAIN && errno != EWOULDBLOCK) {
-              close(fds[i].fd);
-              fds[i].fd = -1;
-              --c;
+            } else if (n == 0) {
+              eof = true;
+            } else if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+              rc = errno;
+              eof = true;
             }
           }
-          if (revents & (POLLERR | POLLHUP | POLLNVAL)) {
+          if (eof) {
             close(fds[i].fd);
             fds[i].fd = -1;
             --c;
@@ -426,6 +433,12 @@ int spawn_do(struct spawn *s) {
         }
       }
 
+      for (int i = 0; i < sizeof(fds) / sizeof(fds[0]); ++i) {
+        if (fds[i].fd != -1) {
+          close(fds[i].fd);
+        }
+      }
+
       if (waitpid(s->pid, &s->wstatus, 0) == -1) {
         perror("waitpid");
       }
-- 
2.43.0


From f1a171fd2b13b9b37e237556cb2c32f4b0b41997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 02/72] fix: interrupted waitpid must not turn a failed command
 into a successful one

---
 spawn.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spawn.c b/spawn.c
index cdfaf51..95b8c23 100644
--- a/spawn.c
+++ b/spawn.c
@@ -439,8 +439,12 @@ int spawn_do(struct spawn *s) {
         }
       }
 
-      if (waitpid(s->pid, &s->wstatus, 0) == -1) {
-        perror("waitpid");
+      while (waitpid(s->pid, &s->wstatus, 0) == -1) {
+        if (errno != EINTR) {
+          perror("waitpid");
+          rc = errno;
+          break;
+        }
       }
     }
   }
-- 
2.43.0


From 2eba1d9d08e7307b1cb8041ac823fcaa3012e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 03/72] fix: close pipes when a command cannot be spawned

---
 spawn.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/spawn.c b/spawn.c
index 95b8c23..e7196e5 100644
--- a/spawn.c
+++ b/spawn.c
@@ -310,24 +310,20 @@ int spawn_do(struct spawn *s) {
     file = rfile;
   }
 
-  if (!nowait) {
-    if (pipe(pipe_stdout) == -1) {
-      return errno;
-    }
-    if (pipe(pipe_stderr) == -1) {
-      return errno;
-    }
-  }
-
-  if (s->stdin_provider) {
-    if (pipe(pipe_stdin) == -1) {
-      return errno;
+  if (  (!nowait && (pipe(pipe_stdout) == -1 || pipe(pipe_stderr) == -1))
+     || (s->stdin_provider && pipe(pipe_stdin) == -1)
+     || (s->pid = fork()) == -1) {
+    rc = errno;
+    int *pipes[] = { pipe_stdout, pipe_stderr, pipe_stdin };
+    for (int i = 0; i < sizeof(pipes) / sizeof(pipes[0]); ++i) {
+      for (int j = 0; j < 2; ++j) {
+        if (pipes[i][j] != -1) {
+          close(pipes[i][j]);
+        }
+      }
     }
-  }
-
-  s->pid = fork();
-  if (s->pid == -1) {
-    return errno;
+    akerror(rc, "Failed to spawn: %s", file);
+    return rc;
   }
 
   if (s->pid == 0) {
-- 
2.43.0


From 4b14b00654a58f01c8f0cbee099f1a8f19223c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 04/72] fix: report write errors of dependency files

A full disk or an I/O error silently truncated the list of dependencies,
later builds treated the rule as up to date.
---
 autark_core.c    | 10 ++++++++--
 deps.c           | 20 ++++++++++++++------
 deps.h           |  4 +++-
 node_cc.c        |  5 ++++-
 node_check.c     |  5 ++++-
 node_configure.c |  5 ++++-
 node_install.c   |  5 ++++-
 node_run.c       |  5 ++++-
 node_subst.c     |  5 ++++-
 9 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index d0d23c2..1dc9210 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -488,7 +488,10 @@ static void _on_command_dep(int argc, const char **argv) {
   if (rc) {
     akfatal(rc, "Failed to write deps file: %s", deps_path);
   }
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    akfatal(rc, "Failed to write deps file: %s", deps_path);
+  }
 }
 
 static void _on_command_dep_env(int argc, const char **argv) {
@@ -515,7 +518,10 @@ static void _on_command_dep_env(int argc, const char **argv) {
   if (rc) {
     akfatal(rc, "Failed to write deps file: %s", deps_path);
   }
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    akfatal(rc, "Failed to write deps file: %s", deps_path);
+  }
 }
 
 static void _on_command_glob(int argc, const char **argv, const char *cdir) {
diff --git a/deps.c b/deps.c
index 764cec4..d306c41 100644
--- a/deps.c
+++ b/deps.c
@@ -155,10 +155,9 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
   }
 
   long int off = ftell(d->file);
-  if (off < 0) {
-    return errno;
+  if (off < 0 || fseek(d->file, 0, SEEK_END) < 0) {
+    return d->rc = errno;
   }
-  fseek(d->file, 0, SEEK_END);
 
   if (type != DEPS_TYPE_ALIAS && type != DEPS_TYPE_ENV && type != DEPS_TYPE_SYS_ENV) {
     if (fprintf(d->file, "%c%c%s\1%" PRId64 "\n", type, flags, resource, serial) < 0) {
@@ -170,9 +169,13 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
     }
   }
 
-  fseek(d->file, off, SEEK_SET);
+  if (fseek(d->file, off, SEEK_SET) < 0 && !rc) {
+    rc = errno;
+  }
   if (!rc) {
     ++d->num_registered;
+  } else if (!d->rc) {
+    d->rc = rc;
   }
   return rc;
 }
@@ -193,11 +196,16 @@ int deps_add_sys_env(struct deps *d, char flags, const char *key, const char *va
   return _deps_add(d, DEPS_TYPE_SYS_ENV, flags, value, key, 0);
 }
 
-void deps_close(struct deps *d) {
+int deps_close(struct deps *d) {
+  int rc = 0;
   if (d && d->file) {
-    fclose(d->file);
+    rc = d->rc;
+    if (fclose(d->file) && !rc) {
+      rc = errno;
+    }
     d->file = 0;
   }
+  return rc;
 }
 
 void deps_prune_all(const char *path) {
diff --git a/deps.h b/deps.h
index e69a101..3987cfa 100644
--- a/deps.h
+++ b/deps.h
@@ -30,6 +30,7 @@ struct deps {
   const char *resource;
   const char *alias;
   FILE       *file;
+  int   rc;                 /// First write error of the current session
   char buf[DEPS_BUF_SZ];
 };
 
@@ -47,7 +48,8 @@ int deps_add_env(struct deps *d, char flags, const char *key, const char *value)
 
 int deps_add_sys_env(struct deps *d, char flags, const char *key, const char *value);
 
-void deps_close(struct deps*);
+/// Returns the first error occurred during deps write session.
+int deps_close(struct deps*);
 
 void deps_prune_all(const char *path);
 
diff --git a/node_cc.c b/node_cc.c
index 53672aa..eff586d 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -303,7 +303,10 @@ static void _cc_on_resolve(struct node_resolve *r) {
     }
   }
 
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, ctx->n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
   ulist_destroy_keep(&rlist);
   ulist_destroy_keep(&tasks);
   map_destroy(fmap);
diff --git a/node_check.c b/node_check.c
index 8c9856a..761242f 100644
--- a/node_check.c
+++ b/node_check.c
@@ -61,7 +61,10 @@ static void _check_on_resolve(struct node_resolve *r) {
     node_fatal(rc, unit->n, "Failed to open depencency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
 }
 
 static char* _resolve_check_path(struct pool *pool, struct node *n, const char *script, struct unit **out_u) {
diff --git a/node_configure.c b/node_configure.c
index 5c3936b..677b03f 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -239,7 +239,10 @@ static void _configure_on_resolve(struct node_resolve *r) {
     deps_add(&deps, DEPS_TYPE_FILE, 's', src, 0);
   }
 
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
 
   ulist_destroy_keep(&rlist);
 }
diff --git a/node_install.c b/node_install.c
index 91911fc..84aca57 100644
--- a/node_install.c
+++ b/node_install.c
@@ -197,7 +197,10 @@ static void _install_on_resolve(struct node_resolve *r) {
     _install_dep_add(&deps, src, target);
   }
 
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
   ulist_destroy_keep(&rlist);
 }
 
diff --git a/node_run.c b/node_run.c
index 77cb040..b6ecb6d 100644
--- a/node_run.c
+++ b/node_run.c
@@ -217,7 +217,10 @@ static void _run_on_resolve(struct node_resolve *r) {
     deps_add(&deps, DEPS_TYPE_FILE, 'f', path, 0);
   }
 
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
 }
 
 static bool _run_setup_foreach(struct node *n) {
diff --git a/node_subst.c b/node_subst.c
index 58133b8..58cf293 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -132,7 +132,10 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
   }
   node_add_unit_deps(n, &deps);
   deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
 }
 
 static const char* _subst_value_proc_cache(struct node *n) {
-- 
2.43.0


From 2ff8e9c783447bb663dbb63bd2e86f9608fd97a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 05/72] fix: do not trust a dependency file which cannot be
 read completely

---
 deps.c   | 4 +++-
 script.c | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/deps.c b/deps.c
index d306c41..546b264 100644
--- a/deps.c
+++ b/deps.c
@@ -22,7 +22,9 @@ int deps_open(const char *path, int omode, struct deps *d) {
     return errno;
   }
   if (fseek(d->file, 0, SEEK_SET) < 0) {
-    return errno;
+    rc = errno;
+    fclose(d->file);
+    d->file = 0;
   }
   return rc;
 }
diff --git a/script.c b/script.c
index 1858c2f..b821a29 100644
--- a/script.c
+++ b/script.c
@@ -1170,6 +1170,10 @@ void node_resolve(struct node_resolve *r) {
   }
 
   if (deps.file) {
+    if (!feof(deps.file)) { // Dependencies were not read completely
+      r->num_deps = 0;
+      ulist_clear(&r->resolve_outdated);
+    }
     deps_close(&deps);
   }
 
-- 
2.43.0


From d622d3cce911c5bc43fc65900c4c6e07fad6701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 06/72] fix: forget recorded dependencies before a rule is
 executed

If a build was killed or a command failed after it changed its products,
the old dependency file was kept: reverting the change which had caused
the execution made the rule look up to date with stale products.
---
 script.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script.c b/script.c
index b821a29..24bfe54 100644
--- a/script.c
+++ b/script.c
@@ -1182,6 +1182,10 @@ void node_resolve(struct node_resolve *r) {
     if (g_env.check.log && r->n) {
       xstr_printf(g_env.check.log, "%s: resolved outdated outdated=%d\n", r->n->name, r->resolve_outdated.num);
     }
+    // Forget the recorded state, so an interrupted or failed run is never taken as up to date
+    if (unlink(deps_path) == -1 && errno != ENOENT) {
+      akfatal(errno, "Failed to remove: %s", deps_path);
+    }
     r->on_resolve(r);
     if (access(deps_path_tmp, F_OK) == 0) {
       rc = utils_rename_file(deps_path_tmp, deps_path);
-- 
2.43.0


From d3aa8e8373aa09223b1eb344f4c479c5e00b0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 07/72] fix: save values of a check script before its
 dependencies

A build killed between two renames lost the values forever. Values of the
previous execution stayed in effect if the script does not set them anymore.
---
 script.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/script.c b/script.c
index 24bfe54..6f48621 100644
--- a/script.c
+++ b/script.c
@@ -1187,19 +1187,24 @@ void node_resolve(struct node_resolve *r) {
       akfatal(errno, "Failed to remove: %s", deps_path);
     }
     r->on_resolve(r);
+    // Values go first, presence of dependency file means what all of the values are saved
+    if (r->on_env_value) {
+      if (!access(env_path_tmp, F_OK)) {
+        rc = utils_rename_file(env_path_tmp, env_path);
+        if (rc) {
+          akfatal(rc, "Rename failed of %s to %s", env_path_tmp, env_path);
+        }
+        env_created = true;
+      } else if (unlink(env_path) == -1 && errno != ENOENT) {
+        akfatal(errno, "Failed to remove: %s", env_path);
+      }
+    }
     if (access(deps_path_tmp, F_OK) == 0) {
       rc = utils_rename_file(deps_path_tmp, deps_path);
       if (rc) {
         akfatal(rc, "Rename failed of %s to %s", deps_path_tmp, deps_path);
       }
     }
-    if (r->on_env_value && !access(env_path_tmp, F_OK)) {
-      rc = utils_rename_file(env_path_tmp, env_path);
-      if (rc) {
-        akfatal(rc, "Rename failed of %s to %s", env_path_tmp, env_path);
-      }
-      env_created = true;
-    }
   }
 
   if (r->on_env_value && (r->mode & NODE_RESOLVE_ENV_ALWAYS) && (env_created || !access(env_path, R_OK))) {
-- 
2.43.0


From 6da35bc2f7202da9d4abba5912dfbf81ed5634b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 08/72] fix: configure of templates given by a list variable

---
 node_configure.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_configure.c b/node_configure.c
index 677b03f..7e1f771 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -303,13 +303,14 @@ static void _configure_setup(struct node *n) {
     const char *v = node_value(nn);
     if (is_vlist(v)) {
       struct vlist_iter iter;
+      vlist_iter_init(v, &iter);
       while (vlist_iter_next(&iter)) {
         char buf[iter.len + 1];
         memcpy(buf, iter.item, iter.len);
         buf[iter.len] = '\0';
         _setup_item(n, buf);
       }
-    } else {
+    } else if (v && *v != '\0') {
       _setup_item(n, v);
     }
   }
-- 
2.43.0


From 024028d43cf429562b803ddc440bcaea6caacb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 09/72] fix: configure: unpaired placeholder marks, long lines
 and I/O errors

---
 node_configure.c | 116 ++++++++++++++++++++++-------------------------
 1 file changed, 55 insertions(+), 61 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 7e1f771..86dde30 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -21,6 +21,12 @@ struct _configure_ctx {
   struct ulist sources;  // char*
 };
 
+static const char* _env_get(struct node *n, struct deps *deps, const char *key) {
+  const char *val = node_env_get(n, key);
+  deps_add_env(deps, 0, key, val ? val : "");
+  return val;
+}
+
 static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   char key[4096];
   const char *ep = line + AK_LLEN("//autarkdef ");
@@ -34,8 +40,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
 
   if (*np == '\"') {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
-    const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    const char *val = _env_get(n, deps, key);
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s \"%s\"\n", key, val);
@@ -43,8 +48,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
     }
   } else if (*np >= '0' && *np <= '9') {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
-    const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    const char *val = _env_get(n, deps, key);
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s %s", key, np);
@@ -56,8 +60,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
     }
   } else {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
-    const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    const char *val = _env_get(n, deps, key);
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s\n", key);
@@ -69,55 +72,35 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
 }
 
 static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
-  char *s = line;
-  char *sp = strchr(line, '@');
-  if (!sp) {
+  const char *s = line, *sp, *ep;
+  if (!strchr(line, '@')) {
     return line;
   }
   struct xstr *xstr = xstr_create_empty();
   struct xstr *kstr = xstr_create_empty();
 
-  do {
+  while ((sp = strchr(s, '@')) && (ep = strchr(sp + 1, '@'))) {
     xstr_cat2(xstr, s, sp - s);
     xstr_clear(kstr);
-    char *p = ++sp;
-    sp = 0;
-
-    while (*p) {
-      if (*p == '@') {
-        const char *key = xstr_ptr(kstr);
-        const char *val = node_env_get(n, key);
-
-        deps_add_env(deps, 0, key, val ? val : "");
-
-        if (val && *val != '\0') {
-          if (is_vlist(val)) {
-            ++val;
-            size_t len = strlen(val);
-            char buf[len + 1];
-            memcpy(buf, val, len + 1);
-            utils_chars_replace(buf, '\1', ' ');
-            xstr_cat(xstr, buf);
-          } else {
-            xstr_cat(xstr, val);
-          }
-        }
-        s = ++p;
-        sp = strchr(s, '@');
-        xstr_clear(kstr);
-        break;
+    xstr_cat2(kstr, sp + 1, ep - sp - 1);
+    const char *key = xstr_ptr(kstr);
+    const char *val = _env_get(n, deps, key);
+    if (val && *val != '\0') {
+      if (is_vlist(val)) {
+        ++val;
+        size_t len = strlen(val);
+        char buf[len + 1];
+        memcpy(buf, val, len + 1);
+        utils_chars_replace(buf, '\1', ' ');
+        xstr_cat(xstr, buf);
       } else {
-        xstr_cat2(kstr, p++, 1);
+        xstr_cat(xstr, val);
       }
     }
-  } while (sp);
-
-  if (xstr_size(kstr)) {
-    xstr_cat2(xstr, "@", 1);
-    xstr_cat(xstr, xstr_ptr(kstr));
-  } else {
-    xstr_cat(xstr, s);
+    s = ep + 1;
   }
+
+  xstr_cat(xstr, s);
   xstr_destroy(kstr);
 
   return xstr_destroy_keep_ptr(xstr);
@@ -125,35 +108,37 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
 
 static void _process_file(struct node *n, const char *src, const char *tgt, struct deps *deps) {
   struct xstr *xstr = 0;
-  if (strcmp(src, tgt) == 0) {
+  if (tgt && strcmp(src, tgt) == 0) {
     xstr = xstr_create_empty();
     xstr_printf(xstr, "%s.tmp", src);
     tgt = xstr_ptr(xstr);
   }
 
-  path_mkdirs_for(tgt);
-
   FILE *f = fopen(src, "r");
   if (!f) {
     node_fatal(errno, n, "Failed to open file: %s", src);
   }
 
-  FILE *t = fopen(tgt, "w");
-  if (!t) {
-    node_fatal(errno, n, "Failed to open file for writing: %s", tgt);
+  FILE *t = 0;
+  if (tgt) {
+    path_mkdirs_for(tgt);
+    t = fopen(tgt, "w");
+    if (!t) {
+      node_fatal(errno, n, "Failed to open file for writing: %s", tgt);
+    }
   }
 
-  char *line;
-  char buf[16384];
+  char *line = 0;
+  size_t line_sz = 0;
 
-  while ((line = fgets(buf, sizeof(buf), f))) {
+  while (getline(&line, &line_sz, f) > 0) {
     char *rl;
     if (utils_startswith(line, "//autarkdef ")) {
       rl = _line_replace_def(n, deps, line);
     } else {
       rl = _line_replace_subs(n, deps, line);
     }
-    if (rl && fputs(rl, t) == EOF) {
+    if (rl && t && fputs(rl, t) == EOF) {
       node_fatal(AK_ERROR_IO, n, "File write fail: %s", tgt);
     }
     if (rl != line) {
@@ -161,18 +146,27 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     }
   }
 
-  // Transfer file permissions
-  struct stat st;
-  if (stat(src, &st) == -1) {
-    node_fatal(errno, n, "Failed to stat source file: %s", src);
+  if (!feof(f)) {
+    node_fatal(AK_ERROR_IO, n, "File read fail: %s", src);
   }
+  free(line);
+
+  if (t) {
+    // Transfer file permissions
+    struct stat st;
+    if (stat(src, &st) == -1) {
+      node_fatal(errno, n, "Failed to stat source file: %s", src);
+    }
 
-  if (fchmod(fileno(t), st.st_mode & 07777) == -1) {
-    node_fatal(errno, n, "Failed to set permissions on target file: %s", tgt);
+    if (fchmod(fileno(t), st.st_mode & 07777) == -1) {
+      node_fatal(errno, n, "Failed to set permissions on target file: %s", tgt);
+    }
+    if (fclose(t)) {
+      node_fatal(errno, n, "File write fail: %s", tgt);
+    }
   }
 
   fclose(f);
-  fclose(t);
 
   if (xstr) {
     int rc = utils_rename_file(tgt, src);
-- 
2.43.0


From e9df1e13a2b5ea62ae0dea979a2fdbadd999df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 10/72] fix: distinguish undefined and empty variables in
 recorded dependencies

---
 autark_core.c    | 5 +----
 deps.c           | 8 ++++----
 deps.h           | 2 ++
 node_configure.c | 2 +-
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 1dc9210..fdf3ef1 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -504,9 +504,6 @@ static void _on_command_dep_env(int argc, const char **argv) {
     akinfo("autark dep env %s", key);
   }
   const char *val = getenv(key);
-  if (!val) {
-    val = "";
-  }
   struct deps deps;
   struct unit *unit = unit_peek();
   const char *deps_path = pool_printf(g_env.pool, "%s.%s", unit->cache_path, "deps.tmp");
@@ -514,7 +511,7 @@ static void _on_command_dep_env(int argc, const char **argv) {
   if (rc) {
     akfatal(rc, "Failed to open deps file: %s", deps_path);
   }
-  rc = deps_add_sys_env(&deps, 0, key, val);
+  rc = deps_add_sys_env(&deps, val ? 0 : DEPS_FLAG_UNSET, key, val ? val : "");
   if (rc) {
     akfatal(rc, "Failed to write deps file: %s", deps_path);
   }
diff --git a/deps.c b/deps.c
index 546b264..7dfe37a 100644
--- a/deps.c
+++ b/deps.c
@@ -101,15 +101,15 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
       }
       case DEPS_TYPE_ENV: {
         const char *val = unit_env_get(n, d->alias);
-        if (!val) {
-          val = "";
+        if (!val || d->flags == DEPS_FLAG_UNSET) {
+          return !val != (d->flags == DEPS_FLAG_UNSET);
         }
         return strcmp(val, d->resource) != 0;
       }
       case DEPS_TYPE_SYS_ENV: {
         const char *val = getenv(d->alias);
-        if (!val) {
-          val = "";
+        if (!val || d->flags == DEPS_FLAG_UNSET) {
+          return !val != (d->flags == DEPS_FLAG_UNSET);
         }
         return strcmp(val, d->resource) != 0;
       }
diff --git a/deps.h b/deps.h
index 3987cfa..7e264f9 100644
--- a/deps.h
+++ b/deps.h
@@ -17,6 +17,8 @@
 #define DEPS_TYPE_ALIAS         97  // a
 #define DEPS_TYPE_OUTDATED      120 // o
 
+#define DEPS_FLAG_UNSET 'u' // Variable of ENV/SYS_ENV record is not defined
+
 #define DEPS_OPEN_TRUNCATE 0x01U
 #define DEPS_OPEN_READONLY 0x02U
 
diff --git a/node_configure.c b/node_configure.c
index 86dde30..62cad2e 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -23,7 +23,7 @@ struct _configure_ctx {
 
 static const char* _env_get(struct node *n, struct deps *deps, const char *key) {
   const char *val = node_env_get(n, key);
-  deps_add_env(deps, 0, key, val ? val : "");
+  deps_add_env(deps, val ? 0 : DEPS_FLAG_UNSET, key, val ? val : "");
   return val;
 }
 
-- 
2.43.0


From 1a7b89a2c86a82321edda797e1b94bc4cb175dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 11/72] fix: configure: keep recorded variables of templates
 which are up to date

---
 node_configure.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 62cad2e..bef4e1b 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -106,6 +106,8 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
   return xstr_destroy_keep_ptr(xstr);
 }
 
+/// Processes `src` template into `tgt` file.
+/// If `tgt` is zero only dependencies of the template are collected.
 static void _process_file(struct node *n, const char *src, const char *tgt, struct deps *deps) {
   struct xstr *xstr = 0;
   if (tgt && strcmp(src, tgt) == 0) {
@@ -180,8 +182,7 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
 static void _configure_on_resolve(struct node_resolve *r) {
   struct node *n = r->n;
   struct _configure_ctx *ctx = n->impl;
-  struct ulist *slist = &ctx->sources;
-  struct ulist rlist = { .usize = sizeof(char*) };
+  bool all = r->resolve_outdated.num == 0;
   struct unit *unit = unit_peek();
 
   struct deps deps;
@@ -191,24 +192,23 @@ static void _configure_on_resolve(struct node_resolve *r) {
   }
   node_add_unit_deps(n, &deps);
 
-  if (r->resolve_outdated.num) {
-    for (int i = 0; i < r->resolve_outdated.num; ++i) {
-      struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
-      if (u->flags != 's') {
-        slist = &ctx->sources;
-        break;
-      } else {
-        char *path = pool_strdup(r->pool, u->path);
-        ulist_push(&rlist, &path);
-        slist = &rlist;
-      }
+  for (int i = 0; i < r->resolve_outdated.num; ++i) {
+    struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
+    if (u->flags != 's') {
+      all = true;
+      break;
     }
   }
 
-  for (int i = 0; i < slist->num; ++i) {
+  for (int i = 0; i < ctx->sources.num; ++i) {
     char buf[PATH_MAX];
-    char *tgt, *src = *(char**) ulist_get(slist, i);
+    bool outdated = all;
+    char *tgt, *src = *(char**) ulist_get(&ctx->sources, i);
     src = path_normalize_cwd(src, unit->cache_dir, buf);
+    for (int j = 0; j < r->resolve_outdated.num && !outdated; ++j) {
+      struct resolve_outdated *u = ulist_get(&r->resolve_outdated, j);
+      outdated = strcmp(u->path, src) == 0;
+    }
     bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
     if (!incache) {
       tgt = path_relativize_cwd(unit->dir, src, unit->dir);
@@ -222,7 +222,8 @@ static void _configure_on_resolve(struct node_resolve *r) {
       tgt[len - AK_LLEN(".in")] = '\0';
     }
 
-    _process_file(n, src, tgt, &deps);
+    // Variables used by all of the templates have to be recorded
+    _process_file(n, src, outdated ? tgt : 0, &deps);
 
     free(tgt);
     free(src);
@@ -237,8 +238,6 @@ static void _configure_on_resolve(struct node_resolve *r) {
   if (rc) {
     node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
   }
-
-  ulist_destroy_keep(&rlist);
 }
 
 static void _configure_on_resolve_init(struct node_resolve *r) {
-- 
2.43.0


From 1f58eba992bab0ab9ee32765a796e680db38acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 12/72] fix: configure: track list of templates

---
 node_configure.c |  7 +++++++
 script.c         | 10 ++++++++++
 script.h         |  3 +++
 3 files changed, 20 insertions(+)

diff --git a/node_configure.c b/node_configure.c
index bef4e1b..85e5113 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -191,6 +191,7 @@ static void _configure_on_resolve(struct node_resolve *r) {
     node_fatal(rc, n, "Failed to open dependency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  node_add_value_deps(r, &deps);
 
   for (int i = 0; i < r->resolve_outdated.num; ++i) {
     struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
@@ -252,7 +253,13 @@ static void _configure_build(struct node *n) {
     .path = n->vfile,
     .on_init = _configure_on_resolve_init,
     .on_resolve = _configure_on_resolve,
+    .node_val_deps = { .usize = sizeof(struct node*) },
   };
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    if (node_is_value_may_be_dep_saved(nn)) {
+      ulist_push(&r.node_val_deps, &nn);
+    }
+  }
   node_resolve(&r);
 }
 
diff --git a/script.c b/script.c
index 6f48621..73dc597 100644
--- a/script.c
+++ b/script.c
@@ -1105,6 +1105,16 @@ void node_add_unit_deps(struct node *n, struct deps *deps) {
   }
 }
 
+void node_add_value_deps(struct node_resolve *r, struct deps *deps) {
+  for (int i = 0; i < r->node_val_deps.num; ++i) {
+    struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
+    const char *val = node_value(nv);
+    if (val) {
+      deps_add(deps, DEPS_TYPE_NODE_VALUE, 0, val, i);
+    }
+  }
+}
+
 void node_resolve(struct node_resolve *r) {
   akassert(r && r->path && r->n);
 
diff --git a/script.h b/script.h
index b41c80c..dc2a6d1 100644
--- a/script.h
+++ b/script.h
@@ -196,6 +196,9 @@ struct resolve_outdated {
 
 void node_resolve(struct node_resolve*);
 
+/// Saves current values of `r->node_val_deps` nodes.
+void node_add_value_deps(struct node_resolve *r, struct deps*);
+
 __attribute__((noreturn))
 void node_fatal(int rc, struct node *n, const char *fmt, ...);
 
-- 
2.43.0


From c2822bdddbd7d7555fbcefc65be4d1facfb705d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 13/72] fix: re-execute rules on changes of their loop and
 consumes lists

---
 node_cc.c  |  6 ++++++
 node_run.c | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/node_cc.c b/node_cc.c
index eff586d..c406546 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -366,6 +366,12 @@ static void _cc_build(struct node *n) {
     ulist_push(&r.node_val_deps, &ctx->n_sources);
   }
 
+  for (struct node *nn = ctx->n_consumes ? ctx->n_consumes->child : 0; nn; nn = nn->next) {
+    if (node_is_value_may_be_dep_saved(nn)) {
+      ulist_push(&r.node_val_deps, &nn);
+    }
+  }
+
   node_resolve(&r);
 
   if (ctx->num_failed) {
diff --git a/node_run.c b/node_run.c
index b6ecb6d..6dc14ca 100644
--- a/node_run.c
+++ b/node_run.c
@@ -332,8 +332,16 @@ static void _run_build(struct node *n) {
   r.force_outdated = n->post_build != 0
                      || node_find_direct_child(n, NODE_TYPE_VALUE, "always") != 0;
 
+  if (ctx.fe) {
+    struct node *nn = node_find_parent_of_type(n, NODE_TYPE_FOREACH)->child->next; // Loop list
+    if (node_is_value_may_be_dep_saved(nn)) {
+      ulist_push(&r.node_val_deps, &nn);
+    }
+  }
+
   for (struct node *nn = n->child; nn; nn = nn->next) {
-    if (strcmp(nn->value, "exec") == 0 || strcmp(nn->value, "shell") == 0) {
+    if (  strcmp(nn->value, "exec") == 0 || strcmp(nn->value, "shell") == 0
+       || strcmp(nn->value, "consumes") == 0) {
       for (struct node *cn = nn->child; cn; cn = cn->next) {
         if (node_is_value_may_be_dep_saved(cn)) {
           ulist_push(&r.node_val_deps, &cn);
-- 
2.43.0


From f75b429e6d1b1cad867ec40691f89924a68cdfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 14/72] fix: track arguments of cached program output

---
 node_subst.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node_subst.c b/node_subst.c
index 58cf293..3cb567b 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -131,6 +131,7 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
     node_fatal(rc, n, "Failed to open dependency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  node_add_value_deps(r, &deps);
   deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
   rc = deps_close(&deps);
   if (rc) {
-- 
2.43.0


From 0db300ed39dd2a28aa5675415eaf37a584014705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 15/72] fix: bring generated sources up to date before they are
 compiled

---
 node_cc.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index c406546..746398f 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -335,13 +335,11 @@ static void _cc_build(struct node *n) {
 
   for (int i = 0; i < ctx->sources.num; ++i) {
     const char *src = *(char**) ulist_get(&ctx->sources, i);
-    if (!path_is_exist(src)) {
-      struct node *pn = node_by_product_raw(n, src);
-      if (pn) {
-        node_build(pn);
-      } else {
-        node_fatal(AK_ERROR_DEPENDENCY_UNRESOLVED, n, "'%s'", src);
-      }
+    struct node *pn = node_by_product_raw(n, src);
+    if (pn) {
+      node_build(pn);
+    } else if (!path_is_exist(src)) {
+      node_fatal(AK_ERROR_DEPENDENCY_UNRESOLVED, n, "'%s'", src);
     }
   }
 
-- 
2.43.0


From 23b3652e742102ad944512587d6edf3b0e1418b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 16/72] fix: compilers which cannot be started are reported as
 failed sources

---
 node_cc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/node_cc.c b/node_cc.c
index 746398f..d18ad3f 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -157,7 +157,6 @@ static void _cc_on_build_source(
 
   int rc = spawn_do(s);
   if (rc) {
-    spawn_destroy(s);
     node_error(rc, ctx->n, "%s", ctx->cc);
     return;
   }
@@ -247,9 +246,16 @@ static void _cc_on_resolve(struct node_resolve *r) {
       ++i;
     }
 
+    if (tasks.num == 0) { // None of compilers has been started
+      continue;
+    }
+
     int wstatus = 0;
     pid_t pid = wait(&wstatus);
     if (pid == -1) {
+      if (errno == EINTR) {
+        continue;
+      }
       akfatal(errno, "wait() syscall failed", 0);
     }
 
-- 
2.43.0


From ba6e9a6431542b186cd0893837c580c94a79d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 17/72] fix: track all of included files regardless of their
 names

---
 node_cc.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index d18ad3f..362576f 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -32,15 +32,8 @@ struct _cc_ctx {
 };
 
 static void _cc_deps_MMD_item_add(const char *item, struct node *n, struct deps *deps, const char *src) {
-  char buf[127];
-  char *p = strrchr(item, '.');
-  if (!p || p[1] == '\0') {
-    return;
-  }
-  ++p;
-  char *ext = utils_strncpy(buf, p, sizeof(buf));
-  if (*ext == 'c' || *ext == 'C' || *ext == 'm') {
-    // Skip source files
+  if (strcmp(item, src) == 0) {
+    // Skip the source file itself
     return;
   }
   deps_add_alias(deps, 's', src, item);
@@ -86,12 +79,10 @@ static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src,
         break;
       }
       char *sp = p;
-      char *ep = sp;
       while (*p != '\0' && !utils_char_is_space(*p)) {
-        ep = p;
         ++p;
       }
-      if (ep > sp) {
+      if (p > sp) {
         if (*p != '\0') {
           *p = '\0';
           ++p;
-- 
2.43.0


From 086ef216276f17f3dfb5f722c7d8a091c380080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 18/72] fix: escaped file names and I/O errors of compiler
 dependency files

---
 node_cc.c | 52 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index 362576f..4eba538 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -39,6 +39,27 @@ static void _cc_deps_MMD_item_add(const char *item, struct node *n, struct deps
   deps_add_alias(deps, 's', src, item);
 }
 
+/// Extracts a next file name from make rule pointed by `pp` and removes an escaping of its characters.
+static char* _cc_deps_MMD_item_next(char **pp) {
+  char *p = *pp, *sp, *wp;
+  while (utils_char_is_space(*p)) {
+    ++p;
+  }
+  sp = wp = p;
+  while (*p != '\0' && !utils_char_is_space(*p)) {
+    if ((p[0] == '\\' && (p[1] == ' ' || p[1] == '#')) || (p[0] == '$' && p[1] == '$')) {
+      ++p;
+    }
+    *wp++ = *p++;
+  }
+  if (*p != '\0') {
+    ++p;
+  }
+  *wp = '\0';
+  *pp = p;
+  return sp;
+}
+
 static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src, const char *obj) {
   char buf[MAX(2 * PATH_MAX, 8192)];
   size_t len = strlen(obj);
@@ -51,6 +72,9 @@ static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src,
 
   FILE *f = fopen(buf, "r");
   if (!f) {
+    if (errno != ENOENT) {
+      deps->rc = errno;
+    }
     node_warn(n, "Failed to open compiler generated (-MMD) dependency file: %s", buf);
     return;
   }
@@ -59,11 +83,8 @@ static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src,
 
   while ((p = fgets(buf, sizeof(buf), f))) {
     if (!nl) {
-      if (!utils_startswith(p, obj)) {
-        continue;
-      }
-      p += len;
-      if (*p++ != ':') {
+      char *target = _cc_deps_MMD_item_next(&p);
+      if (!utils_startswith(target, obj) || strcmp(target + len, ":") != 0) {
         continue;
       }
     } else {
@@ -71,26 +92,19 @@ static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src,
     }
 
     while (*p != '\0') {
-      while (*p != '\0' && utils_char_is_space(*p)) {
-        ++p;
-      }
-      if (p[0] == '\\' && p[1] == '\n') {
+      char *item = _cc_deps_MMD_item_next(&p);
+      if (strcmp(item, "\\") == 0) {
         nl = true;
         break;
       }
-      char *sp = p;
-      while (*p != '\0' && !utils_char_is_space(*p)) {
-        ++p;
-      }
-      if (p > sp) {
-        if (*p != '\0') {
-          *p = '\0';
-          ++p;
-        }
-        _cc_deps_MMD_item_add(sp, n, deps, src);
+      if (*item != '\0') {
+        _cc_deps_MMD_item_add(item, n, deps, src);
       }
     }
   }
+  if (!feof(f)) {
+    deps->rc = AK_ERROR_IO;
+  }
   fclose(f);
 }
 
-- 
2.43.0


From f8dfe8fe1629ff260f8dcb99deed7cf04bbbde0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 19/72] fix: long, multiline values and write errors of check
 script variables

---
 autark_core.c | 18 +++++++++++++-----
 log.c         |  1 +
 script.c      | 12 +++++++++---
 utils.c       | 15 +++++++++------
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index fdf3ef1..aca2d2e 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -448,9 +448,9 @@ static void _on_command_set(int argc, const char **argv) {
   }
   struct unit *unit = unit_peek();
   const char *env_path = pool_printf(g_env.pool, "%s.env.tmp", unit->cache_path);
-  FILE *f = fopen(env_path, "a+");
-  if (!f) {
-    akfatal(errno, "Failed to open file: %s", env_path);
+  int rc = utils_file_write_buf(env_path, "", 0, true); // Make sure what file exists
+  if (rc) {
+    akfatal(rc, "Failed to open file: %s", env_path);
   }
   for ( ; optind < argc; ++optind) {
     kv = argv[optind];
@@ -458,10 +458,18 @@ static void _on_command_set(int argc, const char **argv) {
       if (g_env.verbose) {
         akinfo("autark set %s", kv);
       }
-      fprintf(f, "%s\n", kv);
+      // A record occupies exactly one line and written by a single write call
+      struct xstr *xstr = xstr_create_empty();
+      xstr_cat(xstr, kv);
+      utils_chars_replace(xstr_ptr(xstr), '\n', '\2');
+      xstr_cat2(xstr, "\n", 1);
+      rc = utils_file_write_buf(env_path, xstr_ptr(xstr), xstr_size(xstr), true);
+      if (rc) {
+        akfatal(rc, "Failed to write file: %s", env_path);
+      }
+      xstr_destroy(xstr);
     }
   }
-  fclose(f);
 }
 
 static void _on_command_dep(int argc, const char **argv) {
diff --git a/log.c b/log.c
index 1c49016..3b1d72b 100644
--- a/log.c
+++ b/log.c
@@ -129,6 +129,7 @@ void akfatal2(const char *msg) {
     fputs(msg, stderr);
     fputc('\n', stderr);
   }
+  fflush(stdout);
   _exit(254);
 }
 
diff --git a/script.c b/script.c
index 73dc597..bf91b7a 100644
--- a/script.c
+++ b/script.c
@@ -1218,10 +1218,11 @@ void node_resolve(struct node_resolve *r) {
   }
 
   if (r->on_env_value && (r->mode & NODE_RESOLVE_ENV_ALWAYS) && (env_created || !access(env_path, R_OK))) {
-    char buf[4096];
+    char *buf = 0;
+    size_t bufsz = 0;
     FILE *f = fopen(env_path, "r");
     if (f) {
-      while (fgets(buf, sizeof(buf), f)) {
+      while (getline(&buf, &bufsz, f) != -1) {
         char *p = strchr(buf, '=');
         if (p) {
           *p = '\0';
@@ -1229,12 +1230,17 @@ void node_resolve(struct node_resolve *r) {
           for (int vlen = strlen(val); vlen >= 0 && (val[vlen - 1] == '\n' || val[vlen - 1] == '\r'); --vlen) {
             val[vlen - 1] = '\0';
           }
+          utils_chars_replace(val, '\2', '\n');
           r->on_env_value(r, buf, val);
         }
       }
+      if (!feof(f)) {
+        akfatal(AK_ERROR_IO, "Failed to read env file: %s", env_path);
+      }
+      free(buf);
       fclose(f);
     } else {
-      akfatal(rc, "Failed to open env file: %s", env_path);
+      akfatal(errno, "Failed to open env file: %s", env_path);
     }
   }
 
diff --git a/utils.c b/utils.c
index d9e17ab..8ddc5dd 100644
--- a/utils.c
+++ b/utils.c
@@ -41,6 +41,7 @@ struct value utils_file_as_buf(const char *path, ssize_t buflen_max) {
       break;
     }
   }
+  close(fd);
   ret.len = xstr_size(xstr);
   ret.buf = xstr_destroy_keep_ptr(xstr);
   return ret;
@@ -62,7 +63,7 @@ int utils_file_write_buf(const char *path, const char *buf, size_t len, bool app
     if (w >= 0) {
       tow -= w;
     } else if (w < 0) {
-      if (errno == EAGAIN) {
+      if (errno == EAGAIN || errno == EINTR) {
         continue;
       }
       int ret = errno;
@@ -70,8 +71,7 @@ int utils_file_write_buf(const char *path, const char *buf, size_t len, bool app
       return ret;
     }
   }
-  close(fd);
-  return 0;
+  return close(fd) == -1 ? errno : 0;
 }
 
 int utils_copy_file(const char *src, const char *dst) {
@@ -91,8 +91,7 @@ int utils_copy_file(const char *src, const char *dst) {
   while (1) {
     nr = fread(buf, 1, sizeof(buf), sf);
     if (nr) {
-      nr = fwrite(buf, 1, nr, df);
-      if (!nr) {
+      if (fwrite(buf, 1, nr, df) != nr) {
         rc = AK_ERROR_IO;
         break;
       }
@@ -104,7 +103,9 @@ int utils_copy_file(const char *src, const char *dst) {
     }
   }
   fclose(sf);
-  fclose(df);
+  if (fclose(df) && !rc) {
+    rc = errno;
+  }
   return rc;
 }
 
@@ -126,6 +127,7 @@ int utils_rename_file(const char *src, const char *dst) {
 long int utils_strtol(const char *v, int base, int *rcp) {
   *rcp = 0;
   char *ep = 0;
+  errno = 0;
   long int ret = strtol(v, &ep, base);
   if (*ep != '\0' || errno == ERANGE) {
     *rcp = AK_ERROR_INVALID_ARGS;
@@ -137,6 +139,7 @@ long int utils_strtol(const char *v, int base, int *rcp) {
 long long utils_strtoll(const char *v, int base, int *rcp) {
   *rcp = 0;
   char *ep = 0;
+  errno = 0;
   long long ret = strtoll(v, &ep, base);
   if ((*ep != '\0' && *ep != '\n') || errno == ERANGE) {
     *rcp = AK_ERROR_INVALID_ARGS;
-- 
2.43.0


From b7d5fe0d3b6ea08643aaa99c35ddcf191ebb9c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 20/72] fix: no size limits for recorded dependencies and
 cached program output

---
 deps.c       | 14 ++++++++++----
 deps.h       |  5 ++---
 node_subst.c |  2 +-
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/deps.c b/deps.c
index 7dfe37a..67601d5 100644
--- a/deps.c
+++ b/deps.c
@@ -4,6 +4,7 @@
 #include "utils.h"
 #include "paths.h"
 #include "env.h"
+#include "alloc.h"
 
 #include <errno.h>
 #include <assert.h>
@@ -32,7 +33,7 @@ int deps_open(const char *path, int omode, struct deps *d) {
 bool deps_cur_next(struct deps *d) {
   int rc;
   if (d && d->file) {
-    if (!fgets(d->buf, sizeof(d->buf), d->file)) {
+    if (getline(&d->buf, &d->bufsz, d->file) == -1) {
       return false;
     }
 
@@ -123,7 +124,7 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
 static int _deps_add(struct deps *d, char type, char flags, const char *resource, const char *alias, int64_t serial) {
   int rc = 0;
   char buf[2][PATH_MAX];
-  char dbuf[DEPS_BUF_SZ];
+  char *dbuf = 0;
 
   if (flags == 0) {
     flags = ' ';
@@ -146,7 +147,7 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
     }
   } else if (type == DEPS_TYPE_ENV || type == DEPS_TYPE_NODE_VALUE || type == DEPS_TYPE_SYS_ENV) {
     assert(resource);
-    utils_strncpy(dbuf, resource, sizeof(dbuf));
+    dbuf = xstrdup(resource);
     utils_chars_replace(dbuf, '\n', '\2');
     resource = dbuf;
   } else if (type == DEPS_TYPE_FILE_OUTDATED) {
@@ -158,7 +159,9 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
 
   long int off = ftell(d->file);
   if (off < 0 || fseek(d->file, 0, SEEK_END) < 0) {
-    return d->rc = errno;
+    d->rc = errno;
+    free(dbuf);
+    return d->rc;
   }
 
   if (type != DEPS_TYPE_ALIAS && type != DEPS_TYPE_ENV && type != DEPS_TYPE_SYS_ENV) {
@@ -171,6 +174,7 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
     }
   }
 
+  free(dbuf);
   if (fseek(d->file, off, SEEK_SET) < 0 && !rc) {
     rc = errno;
   }
@@ -206,6 +210,8 @@ int deps_close(struct deps *d) {
       rc = errno;
     }
     d->file = 0;
+    free(d->buf);
+    d->buf = 0;
   }
   return rc;
 }
diff --git a/deps.h b/deps.h
index 7e264f9..1f7c468 100644
--- a/deps.h
+++ b/deps.h
@@ -22,8 +22,6 @@
 #define DEPS_OPEN_TRUNCATE 0x01U
 #define DEPS_OPEN_READONLY 0x02U
 
-#define DEPS_BUF_SZ 262144
-
 struct deps {
   char    type;
   char    flags;
@@ -33,7 +31,8 @@ struct deps {
   const char *alias;
   FILE       *file;
   int   rc;                 /// First write error of the current session
-  char buf[DEPS_BUF_SZ];
+  char  *buf;               /// Current record
+  size_t bufsz;
 };
 
 int deps_open(const char *path, int omode, struct deps *init);
diff --git a/node_subst.c b/node_subst.c
index 3cb567b..386e36d 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -163,7 +163,7 @@ static const char* _subst_value_proc_cache(struct node *n) {
     struct unit *unit = unit_peek();
     char path[PATH_MAX];
     snprintf(path, sizeof(path), "%s/%s.cache", unit->cache_dir, r.path);
-    struct value val = utils_file_as_buf(path, 1024 * 1024); // 1Mb max
+    struct value val = utils_file_as_buf(path, -1);
     if (val.error) {
       node_fatal(val.error, n, "Failed to read cache file: %s", path);
     }
-- 
2.43.0


From 62be153e4ee5329285e163b07d0fd2b13ebe5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 21/72] fix: track a compiler given by CC/CXX variables

---
 node_cc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node_cc.c b/node_cc.c
index 4eba538..65c2a14 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -26,6 +26,7 @@ struct _cc_ctx {
   struct node *n_consumes;
   struct node *n_objects;
   const char  *cc;
+  const char  *cckey;       // Environment variable of the compiler, if it was not specified by a rule
   const char *objskey;
   struct ulist consumes;    // sizeof(char*)
   int num_failed;
@@ -211,6 +212,11 @@ static void _cc_on_resolve(struct node_resolve *r) {
     }
   }
 
+  if (ctx->cckey) {
+    const char *val = node_env_get(ctx->n, ctx->cckey);
+    deps_add_env(&deps, val ? 0 : DEPS_FLAG_UNSET, ctx->cckey, val ? val : "");
+  }
+
   for (int i = 0; i < ctx->consumes.num; ++i) {
     const char *path = *(const char**) ulist_get(&ctx->consumes, i);
     deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
@@ -443,6 +449,7 @@ static void _cc_setup(struct node *n) {
   }
   if (!ctx->cc) {
     const char *key = strcmp(n->value, "cc") == 0 ? "CC" : "CXX";
+    ctx->cckey = key;
     if (key) {
       ctx->cc = pool_strdup(ctx->pool, node_env_get(n, key));
       if (g_env.verbose && ctx->cc) {
-- 
2.43.0


From 43954b263a9e4012c299f8fbe4cedddca85743a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 22/72] fix: forward output of commands as is

---
 node_check.c | 4 ++--
 node_run.c   | 4 ++--
 node_subst.c | 4 ++--
 spawn.c      | 6 ++++--
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/node_check.c b/node_check.c
index 761242f..422c150 100644
--- a/node_check.c
+++ b/node_check.c
@@ -13,11 +13,11 @@
 #endif
 
 static void _check_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static void _check_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 static void _check_on_env_value(struct node_resolve *nr, const char *key, const char *val) {
diff --git a/node_run.c b/node_run.c
index 6dc14ca..e5ec38a 100644
--- a/node_run.c
+++ b/node_run.c
@@ -18,11 +18,11 @@ struct _run_spawn_data {
 };
 
 static void _run_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static void _run_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 struct _run_on_resolve_ctx {
diff --git a/node_subst.c b/node_subst.c
index 386e36d..798aa0d 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -61,13 +61,13 @@ struct _subst_ctx {
 };
 
 static void _subst_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 static void _subst_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
   struct _subst_ctx *ctx = spawn_user_data(s);
   xstr_cat2(ctx->xstr, buf, buflen);
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static const char* _subst_value_proc(struct node *n) {
diff --git a/spawn.c b/spawn.c
index e7196e5..fff520b 100644
--- a/spawn.c
+++ b/spawn.c
@@ -243,11 +243,13 @@ void spawn_set_stdout_handler(
 }
 
 static void _default_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stdout, "%s: %s", s->exec, buf);
+  fprintf(stdout, "%s: ", s->exec);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static void _default_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s: %s", s->exec, buf);
+  fprintf(stderr, "%s: ", s->exec);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 void spawn_set_stderr_handler(
-- 
2.43.0


From 7569253399940c831b93a48c1ab80749454e2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 23/72] fix: values which combine a loop variable with other
 variables

---
 node_run.c   | 14 ++++++++++++++
 node_subst.c | 19 +++++++++++++++++++
 script.c     | 13 +------------
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/node_run.c b/node_run.c
index e5ec38a..0703b66 100644
--- a/node_run.c
+++ b/node_run.c
@@ -30,6 +30,7 @@ struct _run_on_resolve_ctx {
   struct node_foreach *fe;
   struct ulist consumes;         // sizeof(char*)
   struct ulist consumes_foreach; // sizeof(char*)
+  char *fe_first;                // First item of foreach list
   bool fe_consumed;              // Foreach variable is consumed
 };
 
@@ -188,6 +189,7 @@ static void _run_on_resolve(struct node_resolve *r) {
         ctx->fe->value = 0;
       }
     }
+    ctx->fe->value = ctx->fe_first;
   } else {
     _run_on_resolve_do(r, n);
   }
@@ -311,6 +313,15 @@ static void _run_on_resolve_init(struct node_resolve *r) {
     node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
     ulist_destroy_keep(&paths);
   }
+
+  if (ctx->fe) { // Values which depend on a loop variable are saved and checked for the first item
+    struct vlist_iter iter;
+    vlist_iter_init(ctx->fe->items, &iter);
+    if (vlist_iter_next(&iter)) {
+      ctx->fe_first = pool_strndup(r->pool, iter.item, iter.len);
+    }
+    ctx->fe->value = ctx->fe_first;
+  }
 }
 
 static void _run_build(struct node *n) {
@@ -351,6 +362,9 @@ static void _run_build(struct node *n) {
   }
 
   node_resolve(&r);
+  if (ctx.fe) {
+    ctx.fe->value = 0;
+  }
   ulist_destroy_keep(&ctx.consumes);
   ulist_destroy_keep(&ctx.consumes_foreach);
 }
diff --git a/node_subst.c b/node_subst.c
index 798aa0d..3c02893 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -70,7 +70,25 @@ static void _subst_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
   fwrite(buf, 1, buflen, stdout);
 }
 
+static int _subst_loop_var_visitor(struct node *n, int lvl, void *d) {
+  if (lvl > 0 && n->value_get == _subst_value && n->child) {
+    const char *key = node_value(n->child);
+    return key && strcmp(key, d) == 0;
+  }
+  return 0;
+}
+
+/// A value which depends on foreach variable is valid only for the current item of a loop.
+static void _subst_reset_loop_value(struct node *n) {
+  struct node_foreach *fe = node_find_parent_foreach(n);
+  if (n->impl && fe && node_visit(n, 1, fe->name, _subst_loop_var_visitor)) {
+    free(n->impl);
+    n->impl = 0;
+  }
+}
+
 static const char* _subst_value_proc(struct node *n) {
+  _subst_reset_loop_value(n);
   if (n->impl) {
     return n->impl;
   }
@@ -140,6 +158,7 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
 }
 
 static const char* _subst_value_proc_cache(struct node *n) {
+  _subst_reset_loop_value(n);
   if (n->impl) {
     return n->impl;
   }
diff --git a/script.c b/script.c
index bf91b7a..b264110 100644
--- a/script.c
+++ b/script.c
@@ -1007,18 +1007,7 @@ bool node_is_value_may_be_dep_saved(struct node *n) {
   if (!n || n->type == NODE_TYPE_VALUE) { // Hardcoded value
     return false;
   }
-  if (node_is_can_be_value(n)) {
-    struct node_foreach *fe = node_find_parent_foreach(n);
-    if (fe) {
-      fe->access_cnt = 0;
-      node_value(n);
-      if (fe->access_cnt > 0) {
-        return false;
-      }
-    }
-    return true;
-  }
-  return false;
+  return node_is_can_be_value(n);
 }
 
 struct node* node_consumes_resolve(
-- 
2.43.0


From b4af4bb2f3a92357e8e0dd9e609b3278b1590d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 24/72] fix: install replaces existing destination files,
 reports all of errors

---
 node_install.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/node_install.c b/node_install.c
index 84aca57..762a24f 100644
--- a/node_install.c
+++ b/node_install.c
@@ -35,7 +35,9 @@ static void _install_symlink(struct _install_on_resolve_ctx *ctx, const char *sr
 
   if (symlink(buf, dst) == -1) {
     if (errno == EEXIST) {
-      unlink(dst);
+      if (unlink(dst) == -1) {
+        node_fatal(errno, n, "Error removing file: %s", dst);
+      }
       if (symlink(buf, dst) == -1) {
         node_fatal(errno, n, "Error creating symlink: %s", dst);
       }
@@ -61,6 +63,10 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
   if (in_fd == -1) {
     node_fatal(errno, n, "Error opening file: %s", src);
   }
+  // Replace a destination: it may be a symlink, a read-only file or running executable
+  if (unlink(dst) == -1 && errno != ENOENT) {
+    node_fatal(errno, n, "Error removing file: %s", dst);
+  }
   int out_fd = open(dst, O_WRONLY | O_CREAT | O_TRUNC, st->st_mode);
   if (out_fd == -1) {
     node_fatal(errno, n, "Error opening file: %s", dst);
@@ -70,7 +76,7 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
   for (ssize_t r; ; ) {
     r = read(in_fd, buf, sizeof(buf));
     if (r < 0) {
-      if (errno == EAGAIN) {
+      if (errno == EAGAIN || errno == EINTR) {
         continue;
       } else {
         node_fatal(errno, n, "Error reading file: %s", src);
@@ -83,7 +89,7 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
       if (w >= 0) {
         tow -= w;
       } else if (w < 0) {
-        if (errno == EAGAIN) {
+        if (errno == EAGAIN || errno == EINTR) {
           continue;
         }
         node_fatal(errno, n, "Error writing file: %s", dst);
@@ -91,7 +97,9 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
     }
   }
 
-  fchmod(out_fd, st->st_mode);
+  if (fchmod(out_fd, st->st_mode) == -1) {
+    node_fatal(errno, n, "Error setting permissions of file: %s", dst);
+  }
 #ifdef __APPLE__
   struct timespec times[2] = { st->st_atime, st->st_mtime };
 #else
@@ -100,7 +108,9 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
   futimens(out_fd, times);
 
   close(in_fd);
-  close(out_fd);
+  if (close(out_fd) == -1) {
+    node_fatal(errno, n, "Error writing file: %s", dst);
+  }
 }
 
 static void _install_do(struct node_resolve *r, const char *src, const char *target) {
-- 
2.43.0


From 37983fbc37798cf786619cccfeb047446a96dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 25/72] fix: refuse a cache directory which is the project root

---
 autark_core.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/autark_core.c b/autark_core.c
index aca2d2e..f7e4d90 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -382,6 +382,12 @@ void autark_build_prepare(const char *script_path) {
     akfatal(errno, "Failed to resolve project CACHE dir: %s", g_env.project.cache_dir);
   }
 
+  const char *cache_real = path_real_pool(g_env.project.cache_dir, g_env.pool);
+  const char *root_real = path_real_pool(g_env.project.root_dir, g_env.pool);
+  if (cache_real && root_real && (strcmp(cache_real, root_real) == 0 || path_is_prefix_for(cache_real, root_real, 0))) {
+    akfatal(AK_ERROR_FAIL, "Project cache dir cannot be project root dir or its parent", 0);
+  }
+
   if (path_is_prefix_for(g_env.project.cache_dir, g_env.project.root_dir, 0)) {
     akfatal(AK_ERROR_FAIL, "Project cache dir cannot be parent of project root dir", 0);
   }
-- 
2.43.0


From 6b877b45bd8d5025296242e0a61d4f1a9a5faf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 26/72] fix: re-execute check script when the script itself or
 its arguments are changed

---
 node_check.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/node_check.c b/node_check.c
index 422c150..7360505 100644
--- a/node_check.c
+++ b/node_check.c
@@ -61,6 +61,8 @@ static void _check_on_resolve(struct node_resolve *r) {
     node_fatal(rc, unit->n, "Failed to open depencency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  node_add_value_deps(r, &deps);
+  deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
   rc = deps_close(&deps);
   if (rc) {
     node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
@@ -106,8 +108,15 @@ static void _check_script(struct node *n) {
     .user_data = unit,
     .on_env_value = _check_on_env_value,
     .on_resolve = _check_on_resolve,
+    .node_val_deps = { .usize = sizeof(struct node*) },
   };
 
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    if (node_is_value_may_be_dep_saved(nn)) {
+      ulist_push(&nr.node_val_deps, &nn);
+    }
+  }
+
   node_resolve(&nr);
 
   unit_pop();
-- 
2.43.0


From 12637b58b053e206d8cdaa9b69185867b964fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 27/72] fix: names of rule state files must not depend on other
 scripts

---
 node_call.c   |  3 ++-
 script.c      | 40 +++++++++++++++++++++++++++++++++++++++-
 script.h      |  3 +++
 script_impl.h |  1 +
 4 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/node_call.c b/node_call.c
index 57cf65b..d02f217 100644
--- a/node_call.c
+++ b/node_call.c
@@ -143,8 +143,9 @@ static void _call_init(struct node *n) {
   ulist_push(&call->nodes, &n->parent);
   _call_remove(n);
   node_visit(mn, 1, call, _call_macro_visit);
-  for (int i = call->nn_idx; i < n->ctx->nodes.num; ++i) {
+  for (int i = call->nn_idx; i > -1 && i < n->ctx->nodes.num; ++i) {
     struct node *nn = *(struct node**) ulist_get(&n->ctx->nodes, i);
+    nn->vfile = node_vfile_nested(n, i - call->nn_idx);
     node_bind(nn);
   }
 }
diff --git a/script.c b/script.c
index b264110..97ab7f1 100644
--- a/script.c
+++ b/script.c
@@ -224,6 +224,7 @@ struct node* node_clone_and_register(struct node *n_) {
   x->base.next = 0;
   x->base.parent = 0;
   x->base.impl = 0;
+  x->base.vfile = 0;
   x->base.value_get = 0;
   x->base.init = 0;
   x->base.setup = 0;
@@ -469,6 +470,41 @@ static void _script_destroy(struct sctx *s) {
   }
 }
 
+static const char* _vfile_hash(const char *p) {
+  uint64_t h = 14695981039346656037ULL; // FNV-1a
+  for ( ; *p; ++p) {
+    h = (h ^ (unsigned char) *p) * 1099511628211ULL;
+  }
+  return pool_printf(g_env.pool, ".%016" PRIx64, h);
+}
+
+/// Name of node state files.
+/// Depends only on a node position in its own script file and a way how this file was included.
+static const char* _node_vfile(struct node *n) {
+  struct node *s = node_find_parent_of_type(n, NODE_TYPE_SCRIPT);
+  if (!s) {
+    return n->type == NODE_TYPE_SCRIPT ? "" : pool_printf(g_env.pool, ".%u", n->index);
+  }
+  if (n->type != NODE_TYPE_SCRIPT) {
+    return pool_printf(g_env.pool, "%s.%u", s->vfile, n->index - s->index);
+  }
+
+  unsigned num = 0; // Number of previous inclusions of this file by the same script
+  for (unsigned i = 0; i < n->index; ++i) {
+    struct node *nn = NODE_AT(&n->ctx->nodes, i);
+    if (  nn->type == NODE_TYPE_SCRIPT && strcmp(nn->value, n->value) == 0
+       && node_find_parent_of_type(nn, NODE_TYPE_SCRIPT) == s) {
+      ++num;
+    }
+  }
+  return _vfile_hash(pool_printf(g_env.pool, "%s:%u:%s", s->vfile, num, n->value));
+}
+
+const char* node_vfile_nested(struct node *n, unsigned num) {
+  const char *ret = pool_printf(g_env.pool, "%s.%u", n->vfile, num);
+  return strlen(ret) > 64 ? _vfile_hash(ret) : ret;
+}
+
 static int _node_bind(struct node *n) {
   int rc = 0;
   if (!(n->flags & NODE_FLG_BOUND)) {
@@ -480,7 +516,9 @@ static int _node_bind(struct node *n) {
     } else {
       n->name = pool_printf(g_env.pool, "%s     %5s", _node_file(n), "");
     }
-    n->vfile = pool_printf(g_env.pool, ".%u", n->index);
+    if (!n->vfile) {
+      n->vfile = _node_vfile(n);
+    }
 
     switch (n->type) {
       case NODE_TYPE_SCRIPT:
diff --git a/script.h b/script.h
index dc2a6d1..429935f 100644
--- a/script.h
+++ b/script.h
@@ -213,4 +213,7 @@ struct node* node_clone_and_register(struct node*);
 
 int node_bind(struct node*);
 
+/// Name of state files of a node which has been created by the given node.
+const char* node_vfile_nested(struct node *n, unsigned num);
+
 #endif
diff --git a/script_impl.h b/script_impl.h
index 4a30836..1b40e79 100644
--- a/script_impl.h
+++ b/script_impl.h
@@ -14,6 +14,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <errno.h>
+#include <inttypes.h>
 #endif
 
 #define XNODE(n__)              ((struct xnode*) (n__))
-- 
2.43.0


From a2872efd56b79a844e73cec3e36dc434e21af776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 28/72] fix: current directory of consumed products resolution

---
 script.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script.c b/script.c
index 97ab7f1..ee93e7b 100644
--- a/script.c
+++ b/script.c
@@ -1090,6 +1090,7 @@ struct node* node_consumes_resolve(
       struct node *pn = node_by_product(n, cv, pathbuf);
       if (pn) {
         node_build(pn);
+        unit_ch_cache_dir(unit, 0); // Current directory has been changed by node_build()
       }
       if (path_is_exist(pathbuf)) {
         if (on_resolved) {
-- 
2.43.0


From 0bc4f6e84a8809dfff972d06c3f274a5d17e8f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 29/72] fix: incomplete cleanup must not leave removed products
 up to date

---
 paths.c | 93 +++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 25 deletions(-)

diff --git a/paths.c b/paths.c
index 83fc220..e06f81c 100644
--- a/paths.c
+++ b/paths.c
@@ -206,71 +206,114 @@ static inline bool _is_autark_dist_root(const char *path) {
   return utils_endswith(path, "/.autark-dist");
 }
 
-static void _rm_dir_recursive(const char *path) {
+/// Removes a given `path` recursively. If `deps_only` is true only dependency files will be removed.
+/// Reports all of errors, returns the first one.
+static int _rm_dir_recursive(const char *path, bool deps_only) {
+  int rc = 0;
   struct stat st;
   if (lstat(path, &st)) {
+    rc = errno;
     perror(path);
-    return;
+    return rc;
   }
 
   if (!S_ISDIR(st.st_mode)) {
-    if (unlink(path) != 0) {
+    if ((!deps_only || utils_endswith(path, ".deps")) && unlink(path) != 0) {
+      rc = errno;
       perror(path);
-      return;
     }
-    return;
+    return rc;
   }
 
   DIR *dir = opendir(path);
   if (!dir) {
+    rc = errno;
     perror(path);
-    return;
+    return rc;
   }
 
   // Use dynamic allocation to avoid stack overflow early
   char *child = xmalloc(PATH_MAX);
-  for (struct dirent *entry; (entry = readdir(dir)) != 0; ) {
+  for ( ; ; ) {
+    errno = 0;
+    struct dirent *entry = readdir(dir);
+    if (!entry) {
+      if (!rc) {
+        rc = errno;
+      }
+      break;
+    }
     const char *name = entry->d_name;
     if (strcmp(name, ".") == 0 || strcmp(name, "..") == 0) {
       continue;
     }
-    snprintf(child, PATH_MAX, "%s/%s", path, name);
-    _rm_dir_recursive(child);
+    int rc2 = ENAMETOOLONG;
+    if (snprintf(child, PATH_MAX, "%s/%s", path, name) < PATH_MAX) {
+      rc2 = _rm_dir_recursive(child, deps_only);
+    }
+    if (!rc) {
+      rc = rc2;
+    }
   }
   closedir(dir);
   free(child);
 
-  if (rmdir(path)) {
+  if (!deps_only && rmdir(path)) {
+    if (!rc) {
+      rc = errno;
+    }
     perror(path);
   }
+  return rc;
 }
 
-int path_rm_cache(const char *path) {
-  char resolved[PATH_MAX];
+static int _rm_cache(const char *path, bool deps_only) {
+  int rc = 0;
   char child[PATH_MAX];
-
-  if (!path_is_exist(path)) {
-    return 0;
-  }
-  if (!realpath(path, resolved)) {
-    return errno;
-  }
-  DIR *dir = opendir(resolved);
+  DIR *dir = opendir(path);
   if (!dir) {
     return errno;
   }
-  for (struct dirent *entry; (entry = readdir(dir)) != 0; ) {
+  for ( ; ; ) {
+    errno = 0;
+    struct dirent *entry = readdir(dir);
+    if (!entry) {
+      if (!rc) {
+        rc = errno;
+      }
+      break;
+    }
     const char *name = entry->d_name;
     if (strcmp(name, ".") == 0 || strcmp(name, "..") == 0) {
       continue;
     }
-    snprintf(child, sizeof(child), "%s/%s", path, name);
-    if (!_is_autark_dist_root(child)) {
-      _rm_dir_recursive(child);
+    int rc2 = ENAMETOOLONG;
+    if (snprintf(child, sizeof(child), "%s/%s", path, name) < (int) sizeof(child)) {
+      rc2 = _is_autark_dist_root(child) ? 0 : _rm_dir_recursive(child, deps_only);
+    }
+    if (!rc) {
+      rc = rc2;
     }
   }
   closedir(dir);
-  return 0;
+  return rc;
+}
+
+int path_rm_cache(const char *path) {
+  char resolved[PATH_MAX];
+
+  if (!path_is_exist(path)) {
+    return 0;
+  }
+  if (!realpath(path, resolved)) {
+    return errno;
+  }
+  // Dependency files go first, so products removed by incomplete cleanup will not be treated as up to date
+  int rc = _rm_cache(resolved, true);
+  if (!rc) {
+    rc = _rm_cache(resolved, false);
+  }
+  return rc;
 }
 
 static int _stat(const char *path, int fd, struct akpath_stat *fs) {
-- 
2.43.0


From 20b805b9404f60dcfb531243f0ccca2e6d8cbdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 30/72] fix: append dependency records at once

---
 deps.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/deps.c b/deps.c
index 67601d5..0535545 100644
--- a/deps.c
+++ b/deps.c
@@ -5,6 +5,7 @@
 #include "paths.h"
 #include "env.h"
 #include "alloc.h"
+#include "xstr.h"
 
 #include <errno.h>
 #include <assert.h>
@@ -164,15 +165,25 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
     return d->rc;
   }
 
+  // A whole record should be appended at once since it may be a number of concurrent writers
+  struct xstr *xstr = xstr_create_empty();
   if (type != DEPS_TYPE_ALIAS && type != DEPS_TYPE_ENV && type != DEPS_TYPE_SYS_ENV) {
-    if (fprintf(d->file, "%c%c%s\1%" PRId64 "\n", type, flags, resource, serial) < 0) {
-      rc = errno;
-    }
+    xstr_printf(xstr, "%c%c%s\1%" PRId64 "\n", type, flags, resource, serial);
   } else {
-    if (fprintf(d->file, "%c%c%s\1%s\1%" PRId64 "\n", type, flags, alias, resource, serial) < 0) {
+    xstr_printf(xstr, "%c%c%s\1%s\1%" PRId64 "\n", type, flags, alias, resource, serial);
+  }
+  const char *rp = xstr_ptr(xstr);
+  for (size_t len = xstr_size(xstr); len > 0; ) {
+    ssize_t n = write(fileno(d->file), rp, len);
+    if (n >= 0) {
+      rp += n;
+      len -= n;
+    } else if (errno != EINTR) {
       rc = errno;
+      break;
     }
   }
+  xstr_destroy(xstr);
 
   free(dbuf);
   if (fseek(d->file, off, SEEK_SET) < 0 && !rc) {
-- 
2.43.0


From ebe2404dfc95685e9193030362fc21e167ef044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 31/72] fix: check results of setenv calls

---
 alloc.h       |  7 +++++++
 autark_core.c | 10 +++++-----
 node_set.c    |  2 +-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/alloc.h b/alloc.h
index c83a931..689291a 100644
--- a/alloc.h
+++ b/alloc.h
@@ -5,6 +5,7 @@
 #include "basedefs.h"
 #include "log.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <stddef.h>
 #include <string.h>
@@ -42,4 +43,10 @@ AK_ALLOC static inline void* xcalloc(size_t nmemb, size_t size) {
   return ptr;
 }
 
+static inline void xsetenv(const char *key, const char *val) {
+  if (setenv(key, val, 1)) {
+    akfatal(errno, "Failed to set environment variable: '%s'", key);
+  }
+}
+
 #endif
diff --git a/autark_core.c b/autark_core.c
index f7e4d90..df6c327 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -190,7 +190,7 @@ void unit_push(struct unit *unit, struct node *n) {
   }
   ulist_push(&g_env.stack_units, &ctx);
   unit_ch_dir(&ctx, 0);
-  setenv(AUTARK_UNIT, unit->rel_path, 1);
+  xsetenv(AUTARK_UNIT, unit->rel_path);
 }
 
 struct unit* unit_pop(void) {
@@ -200,7 +200,7 @@ struct unit* unit_pop(void) {
   struct unit_ctx peek = unit_peek_ctx();
   if (peek.unit) {
     unit_ch_dir(&peek, 0);
-    setenv(AUTARK_UNIT, peek.unit->rel_path, 1);
+    xsetenv(AUTARK_UNIT, peek.unit->rel_path);
   } else {
     unsetenv(AUTARK_UNIT);
   }
@@ -411,11 +411,11 @@ void autark_build_prepare(const char *script_path) {
     akfatal(AK_ERROR_FAIL, "Failed to access build CACHE directory: %s", g_env.project.cache_dir);
   }
 
-  setenv(AUTARK_ROOT_DIR, g_env.project.root_dir, 1);
-  setenv(AUTARK_CACHE_DIR, g_env.project.cache_dir, 1);
+  xsetenv(AUTARK_ROOT_DIR, g_env.project.root_dir);
+  xsetenv(AUTARK_CACHE_DIR, g_env.project.cache_dir);
 
   if (g_env.verbose) {
-    setenv(AUTARK_VERBOSE, "1", 1);
+    xsetenv(AUTARK_VERBOSE, "1");
   }
 }
 
diff --git a/node_set.c b/node_set.c
index ebd28ab..f60ce70 100644
--- a/node_set.c
+++ b/node_set.c
@@ -66,7 +66,7 @@ static void _set_setup(struct node *n) {
         if (g_env.verbose) {
           node_info(n, "%s=%s", key, v);
         }
-        setenv(key, v, 1);
+        xsetenv(key, v);
       }
     }
   }
-- 
2.43.0


From 05f251624609148595a7f97703e16c241bd4ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 32/72] fix: products created by rules of alternative branches
 were taken as up to date

---
 script.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/script.c b/script.c
index ee93e7b..b6d5fa9 100644
--- a/script.c
+++ b/script.c
@@ -1143,6 +1143,35 @@ void node_add_value_deps(struct node_resolve *r, struct deps *deps) {
   }
 }
 
+/// Checks if a rule is the last one which has created its products. If `own` is set the rule is recorded as such.
+/// The same product can be created by different rules, eg: by rules from alternative branches of a condition.
+static bool _node_products_owned(struct node *n, const char *deps_path, bool own) {
+  struct map_iter iter;
+  map_iter_init(n->ctx->products, &iter);
+  while (map_iter_next(&iter)) {
+    if (iter.val != n) {
+      continue;
+    }
+    char buf[PATH_MAX];
+    const char *link = pool_printf(g_env.pool, "%s/%s.owner", g_env.project.cache_dir, _vfile_hash(iter.key));
+    ssize_t len = readlink(link, buf, sizeof(buf) - 1);
+    buf[len > 0 ? len : 0] = '\0';
+    if (strcmp(buf, deps_path) == 0) {
+      continue;
+    }
+    if (!own) {
+      if (len == -1 && errno == ENOENT) { // Not recorded
+        continue;
+      }
+      return false;
+    }
+    if ((unlink(link) == -1 && errno != ENOENT) || symlink(deps_path, link) == -1) {
+      akfatal(errno, "Failed to create: %s", link);
+    }
+  }
+  return true;
+}
+
 void node_resolve(struct node_resolve *r) {
   akassert(r && r->path && r->n);
 
@@ -1208,7 +1237,8 @@ void node_resolve(struct node_resolve *r) {
   }
 
   if (deps.file) {
-    if (!feof(deps.file)) { // Dependencies were not read completely
+    if (!feof(deps.file) || !_node_products_owned(r->n, deps_path, false)) {
+      // Dependencies were not read completely or products are overwritten by other rule
       r->num_deps = 0;
       ulist_clear(&r->resolve_outdated);
     }
@@ -1224,6 +1254,7 @@ void node_resolve(struct node_resolve *r) {
     if (unlink(deps_path) == -1 && errno != ENOENT) {
       akfatal(errno, "Failed to remove: %s", deps_path);
     }
+    _node_products_owned(r->n, deps_path, true);
     r->on_resolve(r);
     // Values go first, presence of dependency file means what all of the values are saved
     if (r->on_env_value) {
-- 
2.43.0


From ce16534067e50287264c732a939d8bc548f415bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 33/72] fix: a script which includes itself was included
 endlessly

The build never ended: every include parsed the script again until memory ran
out. Nested inclusions of the same script are limited now, like macro calls.
---
 node_include.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/node_include.c b/node_include.c
index 75ea17d..08bf5b8 100644
--- a/node_include.c
+++ b/node_include.c
@@ -1,8 +1,22 @@
 #ifndef _AMALGAMATE_
 #include "script.h"
 #include "log.h"
+
+#include <string.h>
 #endif
 
+#define INCLUDE_MAX_RECURSION 64
+
+/// Checks if a script just parsed for include node `n` is not an endless recursion of including scripts.
+static void _include_check_recursion(struct node *n, struct node *nn) {
+  int num = 0;
+  for (struct node *p = n->parent; p; p = p->parent) {
+    if (p->type == NODE_TYPE_SCRIPT && strcmp(p->value, nn->value) == 0 && ++num >= INCLUDE_MAX_RECURSION) {
+      node_fatal(AK_ERROR_SCRIPT, n, "Script includes itself: %s", nn->value);
+    }
+  }
+}
+
 static void _include(struct node *n, struct node *cn) {
   const char *file = node_value(cn);
   if (!file || *file == '\0') {
@@ -17,6 +31,7 @@ static void _include(struct node *n, struct node *cn) {
     node_fatal(rc, n, "Failed to open Autark script: %s", file);
   }
   akassert(nn);
+  _include_check_recursion(n, nn);
 
   if (pn) {
     pn->next = nn;
-- 
2.43.0


From 50db2519c20e4b04a216908f4a74e1e4d7aa1578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 34/72] fix: dot segments of absolute paths were kept when the
 first dot was not one

Only the first dot of an absolute path was examined, so --cache=/dir/no.such/../p
was not seen as /dir/p. With p being the project root its check was passed and
the build used the project root as a cache directory.
---
 paths.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/paths.c b/paths.c
index e06f81c..c2ffd39 100644
--- a/paths.c
+++ b/paths.c
@@ -83,9 +83,7 @@ char* path_normalize_cwd(const char *path, const char *cwd, char buf[PATH_MAX])
   akassert(cwd);
   if (path[0] == '/') {
     utils_strncpy(buf, path, PATH_MAX);
-    char *p = strchr(buf, '.');
-    if (  p == 0
-       || !(*(p - 1) == '/' && (p[1] == '/' || p[1] == '.' || p[1] == '\0'))) {
+    if (!strstr(buf, "/.")) { // No dot segments
       return buf;
     }
   } else {
-- 
2.43.0


From 01d9cae30c1aafc31bd625ac1760e986d06af91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 35/72] fix: text of error directives was used as a printf
 format

---
 node_error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_error.c b/node_error.c
index 5635d6d..28bf380 100644
--- a/node_error.c
+++ b/node_error.c
@@ -14,7 +14,7 @@ static void _error_setup(struct node *n) {
       xstr_cat(xstr, node_value(nn));
     }
   }
-  node_fatal(AK_ERROR_FAIL, n, xstr_ptr(xstr));
+  node_fatal(AK_ERROR_FAIL, n, "%s", xstr_ptr(xstr));
 }
 
 int node_error_setup(struct node *n) {
-- 
2.43.0


From 473bf60ab00efefe0ec3c129b7a7997dee20aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 36/72] fix: a program substitution without a command evaluated
 to a null pointer

---
 node_subst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_subst.c b/node_subst.c
index 3c02893..9cc6697 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -94,7 +94,7 @@ static const char* _subst_value_proc(struct node *n) {
   }
   const char *cmd = node_value(n->child);
   if (cmd == 0 || *cmd == '\0') {
-    return 0;
+    return "";
   }
   struct xstr *xstr = xstr_create_empty();
   struct _subst_ctx ctx = {
-- 
2.43.0


From 9f675e3e2a19989d56af85016b7e82557de1367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 37/72] fix: error reports of scripts which cannot be parsed
 wrote past the parser buffer

---
 script.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/script.c b/script.c
index b6d5fa9..bf6be48 100644
--- a/script.c
+++ b/script.c
@@ -14,7 +14,6 @@ static void _yyerror(yycontext *yy) {
   }
   if (yy->__pos < yy->__limit) {
     char buf[2] = { 0 };
-    yy->__buf[yy->__limit] = '\0';
     xstr_cat(xerr, "\n");
     while (yy->__pos < yy->__limit) {
       buf[0] = yy->__buf[yy->__pos++];
-- 
2.43.0


From 5c79eed33f551676ce55ad52bb8d3669b8514e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 38/72] fix: the body of a macro without a name stayed in the
 script

---
 node_macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_macro.c b/node_macro.c
index f086c6e..accdebd 100644
--- a/node_macro.c
+++ b/node_macro.c
@@ -43,11 +43,11 @@ static void _macro_remove(struct node *n) {
 static void _macro_init(struct node *n) {
   struct unit *unit = unit_peek();
   const char *key = node_value(n->child);
+  _macro_remove(n);
   if (!key || key[0] == '\0') {
     node_warn(n, "No name specified for 'macro' directive");
     return;
   }
-  _macro_remove(n);
   unit_env_set_node(unit, key, n, TAG_INIT);
 }
 
-- 
2.43.0


From 38dd962343735124d6d2c00c8c540588a666d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 39/72] fix: macros with more than 64 arguments read past the
 list of arguments

---
 node_call.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_call.c b/node_call.c
index d02f217..9a05d4a 100644
--- a/node_call.c
+++ b/node_call.c
@@ -69,7 +69,7 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
       idx = call->arg_idx;
     }
     call->arg_idx = idx;
-    n = call->args[idx];
+    n = idx < MACRO_MAX_ARGS_NUM ? call->args[idx] : 0;
     if (!n) {
       node_fatal(rc, call->n, "Call argument: %d for macro: %s is not set", (idx + 1), call->key);
       return 0;
-- 
2.43.0


From dc353861c74850cd4d9c4cff31e04d29b0ab7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 40/72] fix: loops with an undefined name or with a list using
 the loop variable crashed

---
 node_foreach.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/node_foreach.c b/node_foreach.c
index c178808..01e47ec 100644
--- a/node_foreach.c
+++ b/node_foreach.c
@@ -6,13 +6,10 @@
 #endif
 
 static void _foreach_setup(struct node *n) {
-  if (!n->child) {
+  const char *name = node_value(n->child);
+  if (!name || *name == '\0') {
     node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Foreach must have a variable name as first parameter");
   }
-   struct node_foreach *fe = xcalloc(1, sizeof(*fe));
-  n->impl = fe;
-  fe->name = xstrdup(node_value(n->child));
-
   struct xstr *xstr = xstr_create_empty();
   const char *v = node_value(n->child->next);
   if (v && *v != '\0') {
@@ -21,7 +18,11 @@ static void _foreach_setup(struct node *n) {
   if (!is_vlist(xstr_ptr(xstr))) {
     xstr_unshift(xstr, "\1", 1);
   }
+
+  struct node_foreach *fe = xcalloc(1, sizeof(*fe));
+  fe->name = xstrdup(name);
   fe->items = xstr_destroy_keep_ptr(xstr);
+  n->impl = fe;
 }
 
 static void _foreach_dispose(struct node *n) {
-- 
2.43.0


From a82e7b208dcce05274656168b47279cd145d07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 41/72] fix: a command without a name crashed the build

---
 spawn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spawn.c b/spawn.c
index fff520b..666260d 100644
--- a/spawn.c
+++ b/spawn.c
@@ -285,6 +285,10 @@ int spawn_do(struct spawn *s) {
   char **envp = _env_create(s);
   char **args = _args_create(s);
   const char *file = args[0];
+  if (!file) {
+    akerror(AK_ERROR_INVALID_ARGS, "No command specified", 0);
+    return AK_ERROR_INVALID_ARGS;
+  }
 
   {
     struct xstr *xstr = xstr_create_empty();
-- 
2.43.0


From 044a0c5bb48f3029d83c3dc70e95ec1846d86898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 42/72] fix: variables redefined in a cycle, or without a name,
 crashed the build

---
 node_set.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/node_set.c b/node_set.c
index f60ce70..c84ab28 100644
--- a/node_set.c
+++ b/node_set.c
@@ -78,9 +78,28 @@ static void _set_build(struct node *n) {
   }
 }
 
+/// Finds a previous definition of the same variable which is not being evaluated now.
+/// Definitions registered again by `let` may refer to each other.
+static struct node* _set_prev_definition(struct node *n) {
+  struct node *mark = n, *nn = n->recur_next.n;
+  for (int i = 0, lim = 1; nn && nn->recur_next.active; nn = nn->recur_next.n) {
+    if (nn == mark) {
+      return 0;
+    }
+    if (++i == lim) {
+      mark = nn, i = 0, lim *= 2;
+    }
+  }
+  return nn;
+}
+
 static const char* _set_value_get(struct node *n) {
-  if (n->recur_next.active && n->recur_next.n) {
-    return _set_value_get(n->recur_next.n);
+  if (n->recur_next.active) {
+    struct node *nn = _set_prev_definition(n);
+    if (nn && nn->value_get != _set_value_get) {
+      return node_value(nn);
+    }
+    return nn ? _set_value_get(nn) : 0;
   }
   n->recur_next.active = true;
 
@@ -102,7 +121,7 @@ static const char* _set_value_get(struct node *n) {
 
   n->impl = (void*) (uintptr_t) -1;
 
-  struct node *nn = n->child->next;
+  struct node *nn = n->child ? n->child->next : 0;
   if (!nn) {
     n->impl = xstrdup("");
     n->recur_next.active = false;
-- 
2.43.0


From fa5af1d52fd13a0c3d588b5c715e5712ce0d5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 43/72] fix: configure directives which appear after
 initialisation crashed the build

---
 node_configure.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node_configure.c b/node_configure.c
index 85e5113..c09e6df 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -264,6 +264,9 @@ static void _configure_build(struct node *n) {
 }
 
 static void _configure_init(struct node *n) {
+  if (n->impl) {
+    return;
+  }
   struct pool *pool = pool_create_empty();
   struct _configure_ctx *ctx = n->impl = pool_calloc(pool, sizeof(*ctx));
   ctx->pool = pool;
@@ -299,6 +302,7 @@ static void _setup_item(struct node *n, const char *v) {
 }
 
 static void _configure_setup(struct node *n) {
+  _configure_init(n);
   for (struct node *nn = n->child; nn; nn = nn->next) {
     const char *v = node_value(nn);
     if (is_vlist(v)) {
-- 
2.43.0


From 72ad2e84b35864a6c555f3cb1c9447378f47daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 44/72] fix: damaged dependency records crashed the build or
 were taken as up to date

---
 deps.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/deps.c b/deps.c
index 0535545..f67ed9c 100644
--- a/deps.c
+++ b/deps.c
@@ -31,12 +31,25 @@ int deps_open(const char *path, int omode, struct deps *d) {
   return rc;
 }
 
+// A damaged record makes its owner outdated.
+static void _deps_damaged(struct deps *d) {
+  d->type = DEPS_TYPE_OUTDATED;
+  d->flags = ' ';
+  d->resource = "";
+  d->alias = "";
+}
+
 bool deps_cur_next(struct deps *d) {
   int rc;
   if (d && d->file) {
-    if (getline(&d->buf, &d->bufsz, d->file) == -1) {
+    ssize_t len = getline(&d->buf, &d->bufsz, d->file);
+    if (len == -1) {
       return false;
     }
+    if (len < 3 || d->buf[len - 1] != '\n') {
+      _deps_damaged(d);
+      return true;
+    }
 
     char *ls = 0;
     char *rp = d->buf;
@@ -66,16 +79,17 @@ bool deps_cur_next(struct deps *d) {
       ++rp;
     }
 
-    if (ls) {
+    if (ls && d->resource && ls >= d->resource) {
       *ls = '\0';
       if (d->type == DEPS_TYPE_FILE || d->type == DEPS_TYPE_NODE_VALUE || d->type == DEPS_TYPE_ALIAS) {
         ++ls;
         d->serial = utils_strtoll(ls, 10, &rc);
         if (rc) {
-          akerror(rc, "Failed to read '%s' as number", ls);
-          return false;
+          _deps_damaged(d);
         }
       }
+    } else {
+      _deps_damaged(d);
     }
 
     return true;
-- 
2.43.0


From 9e8d4314b115cbcfb8808f4db24d769ff69cdd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 45/72] fix: library lookups without a name and meta entries
 without a value crashed

---
 node_find.c | 4 ++++
 node_meta.c | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/node_find.c b/node_find.c
index 0b9ec6d..0e8ab87 100644
--- a/node_find.c
+++ b/node_find.c
@@ -12,6 +12,10 @@ static void _library_find(struct node *n) {
   struct node *nn = n->child;
   struct unit *unit = unit_peek();
 
+  if (!nn) {
+    return;
+  }
+
   struct xstr *names = xstr_create_empty();
   for (nn = nn->next; nn; nn = nn->next) {
     if (node_is_can_be_value(nn)) {
diff --git a/node_meta.c b/node_meta.c
index b5ff2bc..6387a7d 100644
--- a/node_meta.c
+++ b/node_meta.c
@@ -17,6 +17,9 @@ static void _meta_on_let(struct node *n, struct node *e) {
       xstr_cat2(xstr, " ", 1);
     }
     const char *nv = node_value(nn);
+    if (!nv) {
+      continue;
+    }
     if (is_vlist(nv)) {
       struct vlist_iter iter;
       vlist_iter_init(nv, &iter);
@@ -52,7 +55,9 @@ static void _meta_on_entry(struct node *n, struct node *e) {
       xstr_cat2(xstr, " ", 1);
     }
     const char *nv = node_value(nn);
-    xstr_cat(xstr, nv);
+    if (nv) {
+      xstr_cat(xstr, nv);
+    }
   }
   node_env_set(n, name, xstr_ptr(xstr));
   xstr_destroy(xstr);
-- 
2.43.0


From 82e19bbc56ce2932604aa66aded948df84e13d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:08 +0000
Subject: [PATCH 46/72] fix: variables and joins of expressions without a value
 crashed

---
 node_join.c | 5 ++++-
 node_set.c  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/node_join.c b/node_join.c
index 27dbca4..40e329c 100644
--- a/node_join.c
+++ b/node_join.c
@@ -21,7 +21,10 @@ static const char* _join_value(struct node *n) {
     if (list) {
       xstr_cat(xstr, "\1");
     }
-    xstr_cat(xstr, node_value(nn));
+    const char *v = node_value(nn);
+    if (v) {
+      xstr_cat(xstr, v);
+    }
   }
   n->impl = xstr_destroy_keep_ptr(xstr);
   return n->impl;
diff --git a/node_set.c b/node_set.c
index c84ab28..df05cda 100644
--- a/node_set.c
+++ b/node_set.c
@@ -130,7 +130,7 @@ static const char* _set_value_get(struct node *n) {
 
   if (!nn->next && nn->value[0] != '.') { // Single value
     const char *v = node_value(nn);
-    n->impl = xstrdup(v);
+    n->impl = xstrdup(v ? v : "");
     n->recur_next.active = false;
     return n->impl;
   }
-- 
2.43.0


From c608aba6e92a2fa6fa771d3ea3f123eec8402c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 47/72] fix: a project reached through symbolic links was built
 outside of its cache directory

---
 autark_core.c | 18 ++++++++++++++++--
 script.c      |  7 ++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index df6c327..73f27ad 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -367,11 +367,15 @@ void autark_build_prepare(const char *script_path) {
     akfatal(AK_ERROR_FAIL, "%s is not a directory", root_dir);
   }
 
-  g_env.project.root_dir = root_dir;
-  g_env.cwd = root_dir;
   if (chdir(root_dir)) {
     akfatal(errno, "Failed to change dir to: %s", root_dir);
   }
+  // Relative paths are resolved against a real path of current directory
+  g_env.project.root_dir = path_real_pool(root_dir, g_env.pool);
+  if (!g_env.project.root_dir) {
+    akfatal(errno, "Failed to resolve project root dir: %s", root_dir);
+  }
+  g_env.cwd = g_env.project.root_dir;
 
   if (!g_env.project.cache_dir) {
     g_env.project.cache_dir = AUTARK_CACHE;
@@ -401,6 +405,16 @@ void autark_build_prepare(const char *script_path) {
     }
   }
 
+  const char *cache_dir = g_env.project.cache_dir;
+  int rc = path_mkdirs(cache_dir);
+  if (rc) {
+    akfatal(rc, "Failed to create directory: %s", cache_dir);
+  }
+  g_env.project.cache_dir = path_real_pool(cache_dir, g_env.pool);
+  if (!g_env.project.cache_dir) {
+    akfatal(errno, "Failed to resolve project CACHE dir: %s", cache_dir);
+  }
+
   utils_strncpy(path_buf, script_path, PATH_MAX);
   const char *path = path_basename(path_buf);
 
diff --git a/script.c b/script.c
index bf6be48..374b722 100644
--- a/script.c
+++ b/script.c
@@ -790,7 +790,12 @@ static int _script_open(struct node *parent, const char *file, struct node **out
   int rc = 0;
   struct node *n;
   char buf[PATH_MAX];
-  autark_build_prepare(path_normalize(file, buf));
+  if (parent) { // Included script, relative to its unit which dir may be a symlink
+    path_normalize_cwd(file, unit_peek()->dir, buf);
+  } else {
+    path_normalize(file, buf);
+  }
+  autark_build_prepare(buf);
   RCC(rc, finish, _script_from_file(parent, buf, &n));
   RCC(rc, finish, _script_bind(n->ctx));
   if (out) {
-- 
2.43.0


From f3b14b2c80dc5ee1f7271f08e81b6753c5899042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 48/72] fix: files made from sources out of the project were
 written outside of the cache directory

---
 autark_core.c    | 12 ++++++++++++
 env.h            |  4 ++++
 node_cc.c        |  7 +++----
 node_configure.c |  4 ++--
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 73f27ad..9a5712a 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -182,6 +182,18 @@ struct unit* unit_create(const char *unit_path_, unsigned flags, struct pool *po
   return unit;
 }
 
+char* unit_output_path(struct unit *unit, const char *src) {
+  char buf[PATH_MAX];
+  char *path = path_relativize_cwd(unit->dir, src, unit->dir);
+  path_normalize_cwd(path, unit->cache_dir, buf);
+  if (!path_is_prefix_for(g_env.project.cache_dir, buf, 0)) { // Keep it in the cache
+    for (char *p = path; utils_startswith(p, "../"); p += AK_LLEN("../")) {
+      p[0] = p[1] = '_';
+    }
+  }
+  return path;
+}
+
 void unit_push(struct unit *unit, struct node *n) {
   akassert(unit);
   struct unit_ctx ctx = { unit, 0 };
diff --git a/env.h b/env.h
index 4cf5a80..944c4be 100644
--- a/env.h
+++ b/env.h
@@ -96,6 +96,10 @@ struct unit* unit_create(const char *unit_path, unsigned flags, struct pool *poo
 
 struct unit* unit_for_path(const char *path);
 
+/// Path of a file made from the source file `src`, relative to the cache dir of unit.
+/// Never leads out of the project cache dir, wherever the source file is.
+char* unit_output_path(struct unit*, const char *src);
+
 void unit_push(struct unit*, struct node*);
 
 struct unit* unit_pop(void);
diff --git a/node_cc.c b/node_cc.c
index 65c2a14..ca28cf8 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -229,7 +229,7 @@ static void _cc_on_resolve(struct node_resolve *r) {
       src = path_normalize_cwd(src, unit->cache_dir, buf);
       bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
       if (!incache) {
-        obj = path_relativize_cwd(unit->dir, src, unit->dir);
+        obj = unit_output_path(unit, src);
         src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
       } else {
         obj = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
@@ -299,7 +299,7 @@ static void _cc_on_resolve(struct node_resolve *r) {
       src = path_normalize_cwd(src, unit->cache_dir, buf);
       bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
       if (!incache) {
-        obj = path_relativize_cwd(unit->dir, src, unit->dir);
+        obj = unit_output_path(unit, src);
         src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
       } else {
         obj = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
@@ -416,8 +416,7 @@ static void _cc_source_add(struct node *n, const char *src) {
   ulist_push(&ctx->sources, &p);
 
   bool incache = path_is_prefix_for(g_env.project.cache_dir, p, unit->dir);
-  const char *dir = incache ? unit->cache_dir : unit->dir;
-  char *obj = path_relativize_cwd(dir, p, dir);
+  char *obj = incache ? path_relativize_cwd(unit->cache_dir, p, unit->cache_dir) : unit_output_path(unit, p);
 
   p = strrchr(obj, '.');
   akassert(p && p[1] != '\0');
diff --git a/node_configure.c b/node_configure.c
index c09e6df..ce9ad8d 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -212,7 +212,7 @@ static void _configure_on_resolve(struct node_resolve *r) {
     }
     bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
     if (!incache) {
-      tgt = path_relativize_cwd(unit->dir, src, unit->dir);
+      tgt = unit_output_path(unit, src);
       src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
     } else {
       tgt = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
@@ -281,7 +281,7 @@ static void _setup_item(struct node *n, const char *v) {
   char *tgt = 0, *src = path_normalize_cwd(v, unit->dir, buf);
   bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
   if (!incache) {
-    tgt = path_relativize_cwd(unit->dir, src, unit->dir);
+    tgt = unit_output_path(unit, src);
     src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
   } else {
     tgt = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
-- 
2.43.0


From b29bab4e0ec4534326ac0ae023ad513c5fc7d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 49/72] fix: scripts included from outside of a project root
 were built outside of its cache directory

---
 autark_core.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 9a5712a..3c921f5 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -124,8 +124,16 @@ struct unit* unit_for_path(const char *path) {
 struct unit* unit_create(const char *unit_path_, unsigned flags, struct pool *pool) {
   char path[PATH_MAX];
   const char *unit_path = unit_path_;
+  const char *root_dir = g_env.project.root_dir;
 
-  if (path_is_absolute(unit_path)) {
+  if (utils_startswith(unit_path, "../")) { // Out of the project root, only scripts from the cache are allowed
+    unit_path = path_is_prefix_for(g_env.project.cache_dir, path_normalize_cwd(unit_path, root_dir, path), 0);
+    if (!unit_path) {
+      akfatal(AK_ERROR_FAIL, "Unit path: %s must be either in project root or cache directory", unit_path_);
+    }
+    unit_path = pool_strdup(pool, unit_path);
+    root_dir = g_env.project.cache_dir;
+  } else if (path_is_absolute(unit_path)) {
     const char *p = path_is_prefix_for(g_env.project.cache_dir, unit_path, 0);
     if (p) {
       unit_path = p;
@@ -146,7 +154,7 @@ struct unit* unit_create(const char *unit_path_, unsigned flags, struct pool *po
   unit->rel_path = pool_strdup(pool, unit_path);
   unit->basename = path_basename((char*) unit->rel_path);
 
-  unit->source_path = pool_printf(pool, "%s/%s", g_env.project.root_dir, unit_path);
+  unit->source_path = pool_printf(pool, "%s/%s", root_dir, unit_path);
   utils_strncpy(path, unit->source_path, sizeof(path));
   unit->dir = pool_strdup(pool, path_dirname(path));
 
-- 
2.43.0


From 4b1332e75528f98dc325e6855526cefedcbfc21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 50/72] fix: products named by paths with empty segments were
 not recognised

---
 paths.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paths.c b/paths.c
index c2ffd39..a11b193 100644
--- a/paths.c
+++ b/paths.c
@@ -83,7 +83,7 @@ char* path_normalize_cwd(const char *path, const char *cwd, char buf[PATH_MAX])
   akassert(cwd);
   if (path[0] == '/') {
     utils_strncpy(buf, path, PATH_MAX);
-    if (!strstr(buf, "/.")) { // No dot segments
+    if (!strstr(buf, "/.") && !strstr(buf, "//")) { // No dot and empty segments
       return buf;
     }
   } else {
-- 
2.43.0


From 46d332e83c74dddfa6141cea8bcf5893d41c7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 51/72] fix: autark glob ignored errors of writing its output

---
 autark_core.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/autark_core.c b/autark_core.c
index 3c921f5..516762c 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -591,6 +591,9 @@ static void _on_command_glob(int argc, const char **argv, const char *cdir) {
       exit(1);
     }
   } while (++optind < argc);
+  if (fflush(stdout) || ferror(stdout)) {
+    akfatal(AK_ERROR_IO, "Failed to write list of files", 0);
+  }
 }
 
 #ifdef TESTS
-- 
2.43.0


From 9288481e52cebc9bff427c937e494953b7a0aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 52/72] fix: an environment entry without a value cut the
 environment of commands

---
 spawn.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spawn.c b/spawn.c
index 666260d..0e6fc2d 100644
--- a/spawn.c
+++ b/spawn.c
@@ -184,7 +184,7 @@ static char** _env_create(struct spawn *s) {
   char **nenv = pool_alloc(s->pool, sizeof(*nenv) * (c + 1));
   nenv[c] = 0;
 
-  for (char **it = environ; *it && i < c; ++it, ++i) {
+  for (char **it = environ; *it && i < c; ++it) {
     const char *entry = *it;
     const char *ep = strchr(entry, '=');
     if (ep == 0) {
@@ -193,9 +193,9 @@ static char** _env_create(struct spawn *s) {
     size_t keylen = ep - entry;
     char *my = _env_find(s, entry, keylen);
     if (my) {
-      nenv[i] = my;
+      nenv[i++] = my;
     } else {
-      nenv[i] = (char*) pool_strdup(s->pool, entry);
+      nenv[i++] = (char*) pool_strdup(s->pool, entry);
     }
   }
   for (c = 0; c < s->env.num; ++c, ++i) {
-- 
2.43.0


From e14a218255a69e4cadf1fdd4d01f38ddd539ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 53/72] fix: --bindir option stopped a parsing of command line
 options

---
 autark_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 516762c..f1e0459 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -728,7 +728,7 @@ void autark_run(int argc, const char **argv) {
     { "prefix", 1, 0, 'R' },
     { "dir", 1, 0, 'C' },
     { "jobs", 1, 0, 'J' },
-    { "bindir", 1, 0, -1 },
+    { "bindir", 1, 0, -7 }, // -1 denotes the end of options
     { "libdir", 1, 0, -2 },
     { "includedir", 1, 0, -3 },
     { "pkgconfdir", 1, 0, -4 },
@@ -775,7 +775,7 @@ void autark_run(int argc, const char **argv) {
       case 'C':
         cdir = pool_strdup(g_env.pool, optarg);
         break;
-      case -1:
+      case -7:
         g_env.install.bin_dir = pool_strdup(g_env.pool, optarg);
         break;
       case -2:
-- 
2.43.0


From 56e4cc0db96cb5a813eb4f34fffaf970cbdbacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:27 +0000
Subject: [PATCH 54/72] fix: files derived from a foreach variable were not
 consumed by run rules

---
 node_run.c | 201 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 121 insertions(+), 80 deletions(-)

diff --git a/node_run.c b/node_run.c
index 0703b66..c3e4a5a 100644
--- a/node_run.c
+++ b/node_run.c
@@ -25,13 +25,22 @@ static void _run_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
   fwrite(buf, 1, buflen, stderr);
 }
 
+// File consumed for the particular item of foreach list
+struct _run_foreach_consume {
+  const char *path;
+  int  item;   // Index of foreach item
+  bool direct; // Consumed file is an item itself
+  bool outdated;
+};
+
 struct _run_on_resolve_ctx {
   struct node_resolve *r;
   struct node_foreach *fe;
   struct ulist consumes;         // sizeof(char*)
-  struct ulist consumes_foreach; // sizeof(char*)
-  char *fe_first;                // First item of foreach list
-  bool fe_consumed;              // Foreach variable is consumed
+  struct ulist consumes_foreach; // sizeof(struct _run_foreach_consume)
+  struct ulist fe_items;         // Items of foreach list, sizeof(char*)
+  int  fe_item;                  // Current foreach item
+  bool fe_direct;                // Current foreach item is consumed directly
 };
 
 static void _run_on_resolve_shell(struct node_resolve *r, struct node *nn_) {
@@ -136,60 +145,59 @@ static void _run_on_resolve_do(struct node_resolve *r, struct node *n) {
   }
 }
 
+// Values which depend on a loop variable are saved and checked for the first item
+static void _run_foreach_first(struct _run_on_resolve_ctx *ctx) {
+  ctx->fe->value = ctx->fe_items.num ? *(char**) ulist_get(&ctx->fe_items, 0) : 0;
+}
+
 static void _run_on_resolve(struct node_resolve *r) {
   struct node *n = r->n;
   struct _run_on_resolve_ctx *ctx = r->user_data;
 
   if (ctx->fe) {
-    if (ctx->fe_consumed) { // Foreach variable is consumed by run
-      struct ulist flist_ = { .usize = sizeof(char*) };
-      struct ulist *flist = &ctx->consumes_foreach;
-      if (r->resolve_outdated.num) {
-        for (int i = 0; i < r->resolve_outdated.num; ++i) {
-          struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
-          if (u->flags != 'f') {
-            flist = &ctx->consumes_foreach; // Fallback to all consumed
-            break;
-          }
-          char *path = pool_strdup(r->pool, u->path);
-          ulist_push(&flist_, &path);
-          flist = &flist_;
+    struct unit *unit = unit_peek();
+    bool all = r->resolve_outdated.num == 0;
+    for (int i = 0; i < r->resolve_outdated.num; ++i) {
+      bool found = false;
+      struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
+      for (int j = 0; u->flags == 'f' && j < ctx->consumes_foreach.num; ++j) {
+        struct _run_foreach_consume *c = ulist_get(&ctx->consumes_foreach, j);
+        if (strcmp(c->path, u->path) == 0) {
+          c->outdated = found = true;
         }
       }
+      if (!found) {
+        all = true; // Fallback to all items
+      }
+    }
 
-      struct unit *unit = unit_peek();
-      for (int i = 0; i < flist->num; ++i) {
-        char *p, *fi = *(char**) ulist_get(flist, i);
-        if (n->flags & NODE_FLG_IN_CACHE) {
-          p = path_relativize_cwd(unit->cache_dir, fi, unit->cache_dir);
-        } else if (n->flags & NODE_FLG_IN_SRC) {
-          p = path_relativize_cwd(unit->dir, fi, unit->dir);
-        } else {
-          p = fi;
-        }
-        ctx->fe->value = p;
-        _run_on_resolve_do(r, n);
-        ctx->fe->value = 0;
-        if (p != fi) {
-          free(p);
+    for (int i = 0; i < ctx->fe_items.num; ++i) {
+      bool outdated = all;
+      const char *direct = 0;
+      for (int j = 0; j < ctx->consumes_foreach.num; ++j) {
+        struct _run_foreach_consume *c = ulist_get(&ctx->consumes_foreach, j);
+        if (c->item == i) {
+          outdated = outdated || c->outdated;
+          direct = c->direct ? c->path : direct;
         }
       }
-
-      ulist_destroy_keep(&flist_);
-    } else {
-      struct vlist_iter iter;
-      vlist_iter_init(ctx->fe->items, &iter);
-      while (vlist_iter_next(&iter)) {
-        char buf[iter.len + 1];
-        memcpy(buf, iter.item, iter.len);
-        buf[iter.len] = '\0';
-
-        ctx->fe->value = buf;
-        _run_on_resolve_do(r, n);
-        ctx->fe->value = 0;
+      if (!outdated) {
+        continue;
+      }
+      char *item = *(char**) ulist_get(&ctx->fe_items, i);
+      char *p = item;
+      if (direct && (n->flags & NODE_FLG_IN_CACHE)) {
+        p = path_relativize_cwd(unit->cache_dir, direct, unit->cache_dir);
+      } else if (direct && (n->flags & NODE_FLG_IN_SRC)) {
+        p = path_relativize_cwd(unit->dir, direct, unit->dir);
+      }
+      ctx->fe->value = p;
+      _run_on_resolve_do(r, n);
+      if (p != item) {
+        free(p);
       }
     }
-    ctx->fe->value = ctx->fe_first;
+    _run_foreach_first(ctx);
   } else {
     _run_on_resolve_do(r, n);
   }
@@ -215,8 +223,8 @@ static void _run_on_resolve(struct node_resolve *r) {
   }
 
   for (int i = 0; i < ctx->consumes_foreach.num; ++i) {
-    const char *path = *(const char**) ulist_get(&ctx->consumes_foreach, i);
-    deps_add(&deps, DEPS_TYPE_FILE, 'f', path, 0);
+    struct _run_foreach_consume *c = ulist_get(&ctx->consumes_foreach, i);
+    deps_add(&deps, DEPS_TYPE_FILE, 'f', c->path, 0);
   }
 
   rc = deps_close(&deps);
@@ -280,54 +288,86 @@ static void _run_on_consumed_resolved(const char *path_, void *d) {
 
 static void _run_on_consumed_resolved_foreach(const char *path_, void *d) {
   struct _run_on_resolve_ctx *ctx = d;
-  const char *path = pool_strdup(ctx->r->pool, path_);
-  ulist_push(&ctx->consumes_foreach, &path);
+  ulist_push(&ctx->consumes_foreach, &(struct _run_foreach_consume) {
+    .path = pool_strdup(ctx->r->pool, path_),
+    .item = ctx->fe_item,
+    .direct = ctx->fe_direct
+  });
 }
 
-static void _run_on_resolve_init(struct node_resolve *r) {
-  struct _run_on_resolve_ctx *ctx = r->user_data;
-  ctx->r = r;
-  struct node *nn = node_find_direct_child(r->n, NODE_TYPE_BAG, "consumes");
-
-  if (ctx->fe) {
-    ctx->fe->value = 0;
-    ctx->fe->access_cnt = 0;
+static void _run_consumes_value_add(struct pool *pool, struct ulist *paths, const char *val) {
+  if (is_vlist(val)) {
+    struct vlist_iter iter;
+    vlist_iter_init(val, &iter);
+    while (vlist_iter_next(&iter)) {
+      char *p = pool_strndup(pool, iter.item, iter.len);
+      ulist_push(paths, &p);
+    }
+  } else if (val && *val != '\0') {
+    char *p = pool_strdup(pool, val);
+    ulist_push(paths, &p);
   }
+}
 
-  if (nn && nn->child) {
-    node_consumes_resolve(r->n, nn->child, 0, _run_on_consumed_resolved, ctx);
+static void _run_on_resolve_init_foreach(struct _run_on_resolve_ctx *ctx, struct node *nn_) {
+  struct node_resolve *r = ctx->r;
+  struct node_foreach *fe = ctx->fe;
+  struct ulist paths = { .usize = sizeof(char*) };
+  struct ulist nodes = { .usize = sizeof(struct node*) }; // Nodes which depend on a loop variable
+
+  struct vlist_iter iter;
+  vlist_iter_init(fe->items, &iter);
+  while (vlist_iter_next(&iter)) {
+    char *item = pool_strndup(r->pool, iter.item, iter.len);
+    ulist_push(&ctx->fe_items, &item);
   }
+  _run_foreach_first(ctx);
 
-  if (ctx->fe && ctx->fe->access_cnt > 0) {
-    ctx->fe_consumed = true;
-
-    struct vlist_iter iter;
-    struct ulist paths = { .usize = sizeof(char*) };
-    vlist_iter_init(ctx->fe->items, &iter);
-    while (vlist_iter_next(&iter)) {
-      char buf[iter.len + 1];
-      memcpy(buf, iter.item, iter.len);
-      char *p = pool_strndup(r->pool, buf, iter.len);
-      ulist_push(&paths, &p);
+  for (struct node *nn = nn_; nn; nn = nn->next) {
+    fe->access_cnt = 0;
+    const char *val = node_value(nn);
+    if (fe->access_cnt) {
+      ulist_push(&nodes, &nn);
+    } else {
+      _run_consumes_value_add(r->pool, &paths, val);
     }
-    node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
-    ulist_destroy_keep(&paths);
   }
-
-  if (ctx->fe) { // Values which depend on a loop variable are saved and checked for the first item
-    struct vlist_iter iter;
-    vlist_iter_init(ctx->fe->items, &iter);
-    if (vlist_iter_next(&iter)) {
-      ctx->fe_first = pool_strndup(r->pool, iter.item, iter.len);
+  node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved, ctx);
+
+  for (int i = 0; i < ctx->fe_items.num; ++i) {
+    ctx->fe_item = i;
+    for (int j = 0; j < nodes.num; ++j) {
+      struct node *nn = *(struct node**) ulist_get(&nodes, j);
+      fe->value = *(char**) ulist_get(&ctx->fe_items, i);
+      const char *val = node_value(nn);
+      ctx->fe_direct = val && strcmp(val, fe->value) == 0;
+      ulist_reset(&paths);
+      _run_consumes_value_add(r->pool, &paths, val);
+      node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
     }
-    ctx->fe->value = ctx->fe_first;
+  }
+
+  ulist_destroy_keep(&paths);
+  ulist_destroy_keep(&nodes);
+  _run_foreach_first(ctx);
+}
+
+static void _run_on_resolve_init(struct node_resolve *r) {
+  struct _run_on_resolve_ctx *ctx = r->user_data;
+  ctx->r = r;
+  struct node *nn = node_find_direct_child(r->n, NODE_TYPE_BAG, "consumes");
+  if (ctx->fe) {
+    _run_on_resolve_init_foreach(ctx, nn ? nn->child : 0);
+  } else if (nn && nn->child) {
+    node_consumes_resolve(r->n, nn->child, 0, _run_on_consumed_resolved, ctx);
   }
 }
 
 static void _run_build(struct node *n) {
   struct _run_on_resolve_ctx ctx = {
     .consumes = { .usize = sizeof(char*) },
-    .consumes_foreach = { .usize = sizeof(char*) },
+    .consumes_foreach = { .usize = sizeof(struct _run_foreach_consume) },
+    .fe_items = { .usize = sizeof(char*) },
     .fe = node_find_parent_foreach(n),
   };
 
@@ -367,6 +407,7 @@ static void _run_build(struct node *n) {
   }
   ulist_destroy_keep(&ctx.consumes);
   ulist_destroy_keep(&ctx.consumes_foreach);
+  ulist_destroy_keep(&ctx.fe_items);
 }
 
 int node_run_setup(struct node *n) {
-- 
2.43.0


From f93a41930075798704bcbb6825083af95d1b2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:48 +0000
Subject: [PATCH 55/72] fix: only the first variable of a defined condition was
 examined

---
 node_if.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_if.c b/node_if.c
index f1c045e..3a4426a 100644
--- a/node_if.c
+++ b/node_if.c
@@ -9,7 +9,7 @@
 static bool _if_defined_eval(struct node *mn) {
   struct node *n = mn->parent;
   for (struct node *nn = mn->child; nn; nn = nn->next) {
-    const char *val = node_value(mn->child);
+    const char *val = node_value(nn);
     if (val && *val != '\0' && node_env_get(n, val)) {
       return true;
     }
-- 
2.43.0


From 37fe92bf74a96f3d7b56f574a2f52a285f973db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:48 +0000
Subject: [PATCH 56/72] fix: only the first term of an and condition was
 examined

---
 node_if.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_if.c b/node_if.c
index 3a4426a..882d1f0 100644
--- a/node_if.c
+++ b/node_if.c
@@ -65,7 +65,7 @@ static bool _if_OR_eval(struct node *n, struct node *mn) {
 }
 
 static bool _if_AND_eval(struct node *n, struct node *mn) {
-  for (struct node *nn = mn->child; nn; nn = nn->child) {
+  for (struct node *nn = mn->child; nn; nn = nn->next) {
     if (!_if_cond_eval(n, nn)) {
       return false;
     }
-- 
2.43.0


From d9cfa24f19edfafb19c2ef7f4a10e1389a1fbcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:48 +0000
Subject: [PATCH 57/72] fix: a list of several items which starts with 0 was
 not truthy

---
 node_if.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_if.c b/node_if.c
index 882d1f0..a9fd3fe 100644
--- a/node_if.c
+++ b/node_if.c
@@ -110,8 +110,8 @@ static bool _if_cond_eval(struct node *n, struct node *mn) {
     if (is_vlist(op)) {
       struct vlist_iter iter;
       vlist_iter_init(op, &iter);
-      if (vlist_iter_next(&iter) && !(iter.len == 1 && iter.item[0] == '0')) {
-        eq = iter.len > 0 || vlist_iter_next(&iter);
+      if (vlist_iter_next(&iter)) {
+        eq = !(iter.len == 1 && iter.item[0] == '0') || vlist_iter_next(&iter);
       }
     } else {
       eq = (op && *op != '\0' && !(op[0] == '0' && op[1] == '\0'));
-- 
2.43.0


From b7789d4079a283230b3ab21b969b61add1404705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:00 +0000
Subject: [PATCH 58/72] fix: an extension given to a basename directive was
 ignored

---
 node_basename.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_basename.c b/node_basename.c
index 1425fd6..1fa1ee5 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -23,7 +23,7 @@ static const char* _basename_value(struct node *n) {
     node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Argument is not set");
   }
   if (n->child->next) {
-    replace_ext = node_value(n->child);
+    replace_ext = node_value(n->child->next);
   }
   struct xstr *xstr = xstr_create_empty();
   const char *dp = strrchr(val, '.');
-- 
2.43.0


From 8aeeaec30c6cb380352c3758f0d3c14390e7f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 59/72] fix: basename directive cut a path without extension at
 a dot of its directory

---
 node_basename.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_basename.c b/node_basename.c
index 1fa1ee5..be09151 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -27,7 +27,7 @@ static const char* _basename_value(struct node *n) {
   }
   struct xstr *xstr = xstr_create_empty();
   const char *dp = strrchr(val, '.');
-  if (dp) {
+  if (dp && !strchr(dp, '/')) {
     xstr_cat2(xstr, val, (dp - val));
   } else {
     xstr_cat(xstr, val);
-- 
2.43.0


From b801d7879db5bc954cfe1a7ef1812eb2baad6bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 60/72] fix: several arguments of path directives were joined
 without separators

---
 node_dir.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/node_dir.c b/node_dir.c
index a39dcee..84163ee 100644
--- a/node_dir.c
+++ b/node_dir.c
@@ -5,9 +5,17 @@
 #include "paths.h"
 #include "utils.h"
 #include "alloc.h"
+#include <string.h>
 #include <unistd.h>
 #endif
 
+static void _dir_add(struct xstr *xstr, const char *item, size_t len) {
+  if (xstr_size(xstr) && len && item[0] != '/' && !utils_endswith(xstr_ptr(xstr), "/")) {
+    xstr_cat2(xstr, "/", 1);
+  }
+  xstr_cat2(xstr, item, len);
+}
+
 static const char* _dir_value(struct node *n) {
   struct node_foreach *fe = node_find_parent_foreach(n);
   if (fe) {
@@ -44,15 +52,10 @@ static const char* _dir_value(struct node *n) {
       struct vlist_iter iter;
       vlist_iter_init(v, &iter);
       while (vlist_iter_next(&iter)) {
-        if (xstr_size(xstr) && iter.len) {
-          if (iter.item[0] != '/' && !utils_endswith(xstr_ptr(xstr), "/")) {
-            xstr_cat2(xstr, "/", 1);
-          }
-        }
-        xstr_cat2(xstr, iter.item, iter.len);
+        _dir_add(xstr, iter.item, iter.len);
       }
     } else {
-      xstr_cat(xstr, v);
+      _dir_add(xstr, v, strlen(v));
     }
   }
   if (xstr_size(xstr) == 0) {
-- 
2.43.0


From 19830b91c2d7c827ddff0c4545877017075e2e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 61/72] fix: a rule was taken as up to date when values of its
 conditional part have changed

---
 deps.h    |  2 ++
 node_if.c |  5 +++++
 script.c  | 29 ++++++++++++++++++++++++++++-
 script.h  |  1 +
 4 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/deps.h b/deps.h
index 1f7c468..10d07a5 100644
--- a/deps.h
+++ b/deps.h
@@ -19,6 +19,8 @@
 
 #define DEPS_FLAG_UNSET 'u' // Variable of ENV/SYS_ENV record is not defined
 
+#define DEPS_SERIAL_CONTENT (-1) // NODE_VALUE record holds a conditional content of the rule
+
 #define DEPS_OPEN_TRUNCATE 0x01U
 #define DEPS_OPEN_READONLY 0x02U
 
diff --git a/node_if.c b/node_if.c
index a9fd3fe..86be015 100644
--- a/node_if.c
+++ b/node_if.c
@@ -212,6 +212,11 @@ static void _if_init(struct node *n) {
   }
   node_init(cn); // Explicitly init conditional node since in script init worflow 'if' initiated first.
 
+  // Content of parent rules depends on the condition
+  for (struct node *nn = n->parent; nn && nn->type != NODE_TYPE_SCRIPT; nn = nn->parent) {
+    nn->flags |= NODE_FLG_CONDITIONAL;
+  }
+
   bool matched = _if_cond_eval(n, cn);
   if (matched) {
     _if_pull_if(n);
diff --git a/script.c b/script.c
index 374b722..00f6b04 100644
--- a/script.c
+++ b/script.c
@@ -1127,6 +1127,24 @@ struct node* node_consumes_resolve(
   return nn;
 }
 
+static void _node_content(struct node *n, struct xstr *xstr) {
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    xstr_printf(xstr, " %s", nn->value ? nn->value : "");
+    if (nn->child) {
+      xstr_cat2(xstr, " {", 2);
+      _node_content(nn, xstr);
+      xstr_cat2(xstr, " }", 2);
+    }
+  }
+}
+
+// Instructions of a rule which are in effect
+static struct xstr* _node_conditional_content(struct node *n) {
+  struct xstr *xstr = xstr_create_empty();
+  _node_content(n, xstr);
+  return xstr;
+}
+
 void node_add_unit_deps(struct node *n, struct deps *deps) {
   struct unit *prev = 0;
   for (struct node *nn = n; nn; nn = nn->parent) {
@@ -1135,6 +1153,11 @@ void node_add_unit_deps(struct node *n, struct deps *deps) {
       deps_add(deps, DEPS_TYPE_FILE, 0, nn->unit->source_path, 0);
     }
   }
+  if (n->flags & NODE_FLG_CONDITIONAL) {
+    struct xstr *xstr = _node_conditional_content(n);
+    deps_add(deps, DEPS_TYPE_NODE_VALUE, 0, xstr_ptr(xstr), DEPS_SERIAL_CONTENT);
+    xstr_destroy(xstr);
+  }
 }
 
 void node_add_value_deps(struct node_resolve *r, struct deps *deps) {
@@ -1212,7 +1235,11 @@ void node_resolve(struct node_resolve *r) {
       if (prev_outdated && strcmp(prev_outdated, deps.resource) == 0) {
         outdated = false;
       } else if (deps.type == DEPS_TYPE_NODE_VALUE) {
-        if (deps.serial >= 0 && deps.serial < r->node_val_deps.num) {
+        if (deps.serial == DEPS_SERIAL_CONTENT) {
+          struct xstr *xstr = _node_conditional_content(r->n);
+          outdated = strcmp(xstr_ptr(xstr), deps.resource) != 0;
+          xstr_destroy(xstr);
+        } else if (deps.serial >= 0 && deps.serial < r->node_val_deps.num) {
           struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, (unsigned int) deps.serial);
           const char *val = node_value(nv);
           outdated = val == 0 || strcmp(val, deps.resource) != 0;
diff --git a/script.h b/script.h
index 429935f..90ba1e4 100644
--- a/script.h
+++ b/script.h
@@ -47,6 +47,7 @@
 #define NODE_FLG_IN_SRC     0x80U
 #define NODE_FLG_NO_CWD     0x100U
 #define NODE_FLG_NEGATE     0x200U
+#define NODE_FLG_CONDITIONAL 0x400U // Subnodes depend on an 'if' condition
 
 #define NODE_FLG_IN_ANY (NODE_FLG_IN_SRC | NODE_FLG_IN_CACHE | NODE_FLG_NO_CWD)
 
-- 
2.43.0


From 16dc3754a973a6b6fc88b4b8a22dd4ac56c7e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:11 +0000
Subject: [PATCH 62/72] fix: a list value was written with control characters
 by autarkdef of configure

---
 node_configure.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index ce9ad8d..4af1063 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -27,6 +27,19 @@ static const char* _env_get(struct node *n, struct deps *deps, const char *key)
   return val;
 }
 
+static void _value_add(struct xstr *xstr, const char *val) {
+  if (is_vlist(val)) {
+    ++val;
+    size_t len = strlen(val);
+    char buf[len + 1];
+    memcpy(buf, val, len + 1);
+    utils_chars_replace(buf, '\1', ' ');
+    xstr_cat(xstr, buf);
+  } else {
+    xstr_cat(xstr, val);
+  }
+}
+
 static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   char key[4096];
   const char *ep = line + AK_LLEN("//autarkdef ");
@@ -43,7 +56,9 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
     const char *val = _env_get(n, deps, key);
     if (val) {
       struct xstr *xstr = xstr_create_empty();
-      xstr_printf(xstr, "#define %s \"%s\"\n", key, val);
+      xstr_printf(xstr, "#define %s \"", key);
+      _value_add(xstr, val);
+      xstr_cat2(xstr, "\"\n", 2);
       return xstr_destroy_keep_ptr(xstr);
     }
   } else if (*np >= '0' && *np <= '9') {
@@ -86,16 +101,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
     const char *key = xstr_ptr(kstr);
     const char *val = _env_get(n, deps, key);
     if (val && *val != '\0') {
-      if (is_vlist(val)) {
-        ++val;
-        size_t len = strlen(val);
-        char buf[len + 1];
-        memcpy(buf, val, len + 1);
-        utils_chars_replace(buf, '\1', ' ');
-        xstr_cat(xstr, buf);
-      } else {
-        xstr_cat(xstr, val);
-      }
+      _value_add(xstr, val);
     }
     s = ep + 1;
   }
-- 
2.43.0


From 8e072191a3be627275d1a4a70b3a72807a0f53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:40 +0000
Subject: [PATCH 63/72] fix: a directory or a plain file hid a command of the
 same name found later in PATH

---
 spawn.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/spawn.c b/spawn.c
index 0e6fc2d..db91845 100644
--- a/spawn.c
+++ b/spawn.c
@@ -12,6 +12,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #endif
@@ -128,8 +129,14 @@ void spawn_env_path_prepend(struct spawn *s, const char *path) {
   s->path_overriden = xstr_destroy_keep_ptr(xstr);
 }
 
+static bool _file_is_executable(const char *path) {
+  struct stat st;
+  return stat(path, &st) == 0 && S_ISREG(st.st_mode) && access(path, X_OK) == 0;
+}
+
 static char* _file_resolve_in_path(struct spawn *s, const char *file, char pathbuf[PATH_MAX]) {
   char buf[PATH_MAX];
+  char found[PATH_MAX] = { 0 };
   const char *sp = s->path_overriden;
   if (!sp) {
     sp = getenv("PATH");
@@ -145,9 +152,13 @@ static char* _file_resolve_in_path(struct spawn *s, const char *file, char pathb
       } else {
         snprintf(pathbuf, PATH_MAX, "%s%s", buf, file);
       }
-      if (!access(pathbuf, F_OK)) {
+      if (_file_is_executable(pathbuf)) {
         return pathbuf;
       }
+      // Directories and plain files do not hide a program found later
+      if (*found == '\0' && !access(pathbuf, F_OK)) {
+        strcpy(found, pathbuf);
+      }
     }
     while (*ep == ':') ++ep;
     if (*ep == '\0') {
@@ -155,6 +166,10 @@ static char* _file_resolve_in_path(struct spawn *s, const char *file, char pathb
     }
     sp = ep;
   }
+  if (*found != '\0') {
+    strcpy(pathbuf, found);
+    return pathbuf;
+  }
   return 0;
 }
 
-- 
2.43.0


From 8fb5d915aaf81983f7d6ba0d66a5a2304d3ca9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:40 +0000
Subject: [PATCH 64/72] fix: a file replaced by an older one was taken as
 unchanged

---
 deps.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deps.c b/deps.c
index f67ed9c..9ae94b7 100644
--- a/deps.c
+++ b/deps.c
@@ -103,14 +103,14 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
     switch (d->type) {
       case DEPS_TYPE_FILE: {
         struct akpath_stat st;
-        if (path_stat(d->resource, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime > d->serial) {
+        if (path_stat(d->resource, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime != (uint64_t) d->serial) {
           return true;
         }
         break;
       }
       case DEPS_TYPE_ALIAS: {
         struct akpath_stat st;
-        if (path_stat(d->alias, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime > d->serial) {
+        if (path_stat(d->alias, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime != (uint64_t) d->serial) {
           return true;
         }
         break;
-- 
2.43.0


From 78e13c816e380fd1ed6fc8ea6e366e8308d16468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:51 +0000
Subject: [PATCH 65/72] fix: branches of a condition with the same text,
 divided into values in another way, were taken as unchanged

---
 script.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/script.c b/script.c
index 00f6b04..49ccc41 100644
--- a/script.c
+++ b/script.c
@@ -1129,11 +1129,11 @@ struct node* node_consumes_resolve(
 
 static void _node_content(struct node *n, struct xstr *xstr) {
   for (struct node *nn = n->child; nn; nn = nn->next) {
-    xstr_printf(xstr, " %s", nn->value ? nn->value : "");
+    xstr_printf(xstr, "\3%s", nn->value ? nn->value : "");
     if (nn->child) {
-      xstr_cat2(xstr, " {", 2);
+      xstr_cat2(xstr, "\4", 1);
       _node_content(nn, xstr);
-      xstr_cat2(xstr, " }", 2);
+      xstr_cat2(xstr, "\5", 1);
     }
   }
 }
-- 
2.43.0


From a23f45fa160b14218d5d84a2172025de5c2709b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:51 +0000
Subject: [PATCH 66/72] fix: a script above the size limit was cut silently at
 the limit

---
 utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index 8ddc5dd..585fe7e 100644
--- a/utils.c
+++ b/utils.c
@@ -21,7 +21,7 @@ struct value utils_file_as_buf(const char *path, ssize_t buflen_max) {
     xstr_destroy(xstr);
     return ret;
   }
-  while (buflen_max != 0 && ret.error == 0) {
+  while (ret.error == 0) {
     ssize_t rb = read(fd, buf, sizeof(buf));
     if (rb > 0) {
       if (buflen_max > -1) {
-- 
2.43.0


From 69c8c1c2956e8d8addc134e3f3f564f86a8d769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:51 +0000
Subject: [PATCH 67/72] fix: the rest of a script after a zero byte was ignored

---
 script.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script.c b/script.c
index 49ccc41..6ec3224 100644
--- a/script.c
+++ b/script.c
@@ -453,6 +453,10 @@ static int _script_from_file(struct node *parent, const char *file, struct node
   if (buf.error) {
     return value_destroy(&buf);
   }
+  if (memchr(buf.buf, '\0', buf.len)) { // Eg: a file which was not written completely
+    value_destroy(&buf);
+    return akerror(AK_ERROR_SCRIPT_SYNTAX, "%s: Zero byte in a script", file);
+  }
   int ret = _script_from_value(parent, file, &buf, out);
   value_destroy(&buf);
   return ret;
-- 
2.43.0


From 9222ce958a24e833601fa93e7becabe101023b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:48 +0000
Subject: [PATCH 68/72] fix: negations of conditions were lost in bodies of
 macros

---
 script.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script.c b/script.c
index 6ec3224..244d4df 100644
--- a/script.c
+++ b/script.c
@@ -218,7 +218,7 @@ struct node* node_clone_and_register(struct node *n_) {
   struct xnode *n = (struct xnode*) n_;
   struct xnode *x = pool_calloc(g_env.pool, sizeof(*x));
   *x = *n;
-  x->base.flags = 0;
+  x->base.flags = n_->flags & NODE_FLG_NEGATE;
   x->base.child = 0;
   x->base.next = 0;
   x->base.parent = 0;
-- 
2.43.0


From 3996da4f691224101c5dde0159edea1b0202b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:48 +0000
Subject: [PATCH 69/72] fix: contents of arguments of macro calls were lost

---
 node_call.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/node_call.c b/node_call.c
index 9a05d4a..8f05eec 100644
--- a/node_call.c
+++ b/node_call.c
@@ -38,9 +38,25 @@ struct node* call_first_node(struct node *n) {
   }
 }
 
+static void _call_arg_clone_children(struct node *to, const struct node *from) {
+  struct node *prev = 0;
+  for (struct node *n = from->child; n; n = n->next) {
+    struct node *nn = node_clone_and_register(n);
+    nn->parent = to;
+    if (prev) {
+      prev->next = nn;
+    } else {
+      to->child = nn;
+    }
+    prev = nn;
+    _call_arg_clone_children(nn, n);
+  }
+}
+
 static int _call_macro_visit(struct node *n, int lvl, void *d) {
   struct _call *call = d;
   int ret = 0;
+  struct node *arg = 0;
 
   if (call->mn == n /*skip macro itself */ || call->mn->child == n /* skip macro name */) {
     return 0;
@@ -69,7 +85,7 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
       idx = call->arg_idx;
     }
     call->arg_idx = idx;
-    n = idx < MACRO_MAX_ARGS_NUM ? call->args[idx] : 0;
+    n = arg = idx < MACRO_MAX_ARGS_NUM ? call->args[idx] : 0;
     if (!n) {
       node_fatal(rc, call->n, "Call argument: %d for macro: %s is not set", (idx + 1), call->key);
       return 0;
@@ -82,6 +98,9 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
   }
   struct node *nn = node_clone_and_register(n);
   nn->parent = parent;
+  if (arg) {
+    _call_arg_clone_children(nn, arg);
+  }
 
   // Add node to the parent
   if (!parent->child) {
-- 
2.43.0


From 9172b4475f91b56fb15e4a696a81ae589a118866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:23 +0000
Subject: [PATCH 70/72] fix: text of a macro was put at the end instead of the
 place of its call

---
 node_call.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/node_call.c b/node_call.c
index 8f05eec..e9237e7 100644
--- a/node_call.c
+++ b/node_call.c
@@ -103,7 +103,16 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
   }
 
   // Add node to the parent
-  if (!parent->child) {
+  if (parent == call->n->parent) { // At the place of call
+    if (call->prev) {
+      nn->next = call->prev->next;
+      call->prev->next = nn;
+    } else {
+      nn->next = parent->child;
+      parent->child = nn;
+    }
+    call->prev = nn;
+  } else if (!parent->child) {
     parent->child = nn;
   } else {
     struct node *c = parent->child;
-- 
2.43.0


From c805aae8a5b18cac8abb71f8af2c7cdbccb56dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:51 +0000
Subject: [PATCH 71/72] fix: definition which extends a variable lost its value
 given by an option or a check script

---
 node_set.c | 34 +++++++++++++++++++++++++++-------
 script.h   |  1 +
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/node_set.c b/node_set.c
index df05cda..d248bb6 100644
--- a/node_set.c
+++ b/node_set.c
@@ -13,6 +13,8 @@ static void _set_dispose(struct node *n) {
     free(n->impl);
   }
   n->impl = 0;
+  free(n->recur_next.val);
+  n->recur_next.val = 0;
 }
 
 static bool _set_is_let(struct node *n) {
@@ -43,8 +45,18 @@ static void _set_init_impl(struct node *n) {
   }
   unsigned tag = 0;
   struct node *nn = unit_env_get_node(unit, key, &tag);
-  if (nn && nn != n) {
-    n->recur_next.n = nn;
+  if (nn) {
+    if (nn != n) {
+      n->recur_next.n = nn;
+    }
+  } else {
+    // A plain value: project option, variable of check script, etc.
+    const char *val = unit_env_get_raw(unit, key);
+    if (val) {
+      free(n->recur_next.val);
+      n->recur_next.val = xstrdup(val);
+      n->recur_next.n = 0;
+    }
   }
   unit_env_set_node(unit, key, n, 0);
 }
@@ -78,28 +90,36 @@ static void _set_build(struct node *n) {
   }
 }
 
-/// Finds a previous definition of the same variable which is not being evaluated now.
+/// Finds a previous definition of the same variable which is not being evaluated now,
+/// or a plain value the variable had before its definitions.
 /// Definitions registered again by `let` may refer to each other.
-static struct node* _set_prev_definition(struct node *n) {
+static struct node* _set_prev_definition(struct node *n, const char **valp) {
   struct node *mark = n, *nn = n->recur_next.n;
+  const char *val = n->recur_next.val;
   for (int i = 0, lim = 1; nn && nn->recur_next.active; nn = nn->recur_next.n) {
     if (nn == mark) {
-      return 0;
+      nn = 0;
+      break;
+    }
+    if (nn->recur_next.val) {
+      val = nn->recur_next.val;
     }
     if (++i == lim) {
       mark = nn, i = 0, lim *= 2;
     }
   }
+  *valp = nn ? 0 : val;
   return nn;
 }
 
 static const char* _set_value_get(struct node *n) {
   if (n->recur_next.active) {
-    struct node *nn = _set_prev_definition(n);
+    const char *val = 0;
+    struct node *nn = _set_prev_definition(n, &val);
     if (nn && nn->value_get != _set_value_get) {
       return node_value(nn);
     }
-    return nn ? _set_value_get(nn) : 0;
+    return nn ? _set_value_get(nn) : val;
   }
   n->recur_next.active = true;
 
diff --git a/script.h b/script.h
index 90ba1e4..86c5c45 100644
--- a/script.h
+++ b/script.h
@@ -87,6 +87,7 @@ struct node {
   // Recursive set
   struct {
     struct node *n;
+    char *val;   // Value of a variable replaced by this definition, owned by node.
     bool active;
   } recur_next;
 
-- 
2.43.0


From 64bea9dfb0fec81209e5efb1a83e2ab1e32ed11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:58 +0000
Subject: [PATCH 72/72] fix: records of a copied project or of a shared cache
 were taken for those of the project at hand

---
 deps.h   |  1 +
 script.c | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/deps.h b/deps.h
index 10d07a5..dd918d9 100644
--- a/deps.h
+++ b/deps.h
@@ -20,6 +20,7 @@
 #define DEPS_FLAG_UNSET 'u' // Variable of ENV/SYS_ENV record is not defined
 
 #define DEPS_SERIAL_CONTENT (-1) // NODE_VALUE record holds a conditional content of the rule
+#define DEPS_SERIAL_PLACE   (-2) // NODE_VALUE record holds a place of the project and its cache
 
 #define DEPS_OPEN_TRUNCATE 0x01U
 #define DEPS_OPEN_READONLY 0x02U
diff --git a/script.c b/script.c
index 244d4df..a93ed6b 100644
--- a/script.c
+++ b/script.c
@@ -1149,6 +1149,13 @@ static struct xstr* _node_conditional_content(struct node *n) {
   return xstr;
 }
 
+/// Records hold absolute paths which mean nothing if the project or its cache was copied, moved or shared.
+static const char* _node_place(void) {
+  static char buf[PATH_MAX * 2];
+  snprintf(buf, sizeof(buf), "%s\3%s", g_env.project.root_dir, g_env.project.cache_dir);
+  return buf;
+}
+
 void node_add_unit_deps(struct node *n, struct deps *deps) {
   struct unit *prev = 0;
   for (struct node *nn = n; nn; nn = nn->parent) {
@@ -1157,6 +1164,7 @@ void node_add_unit_deps(struct node *n, struct deps *deps) {
       deps_add(deps, DEPS_TYPE_FILE, 0, nn->unit->source_path, 0);
     }
   }
+  deps_add(deps, DEPS_TYPE_NODE_VALUE, 0, _node_place(), DEPS_SERIAL_PLACE);
   if (n->flags & NODE_FLG_CONDITIONAL) {
     struct xstr *xstr = _node_conditional_content(n);
     deps_add(deps, DEPS_TYPE_NODE_VALUE, 0, xstr_ptr(xstr), DEPS_SERIAL_CONTENT);
@@ -1243,6 +1251,8 @@ void node_resolve(struct node_resolve *r) {
           struct xstr *xstr = _node_conditional_content(r->n);
           outdated = strcmp(xstr_ptr(xstr), deps.resource) != 0;
           xstr_destroy(xstr);
+        } else if (deps.serial == DEPS_SERIAL_PLACE) {
+          outdated = strcmp(_node_place(), deps.resource) != 0;
         } else if (deps.serial >= 0 && deps.serial < r->node_val_deps.num) {
           struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, (unsigned int) deps.serial);
           const char *val = node_value(nv);
-- 
2.43.0

