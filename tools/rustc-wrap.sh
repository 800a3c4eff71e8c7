#!/bin/sh
# Compiles every target crate without -Zshare-generics: generic code is then instantiated in the crate that uses it
# (and not expected in some other crate that the IR link leaves out). Build scripts' probes and host crates are untouched.
case " $* " in
  *" -C linker-plugin-lto"*)
    case " $* " in *" -C metadata="*) RUSTC_BOOTSTRAP=1 exec "$@" -Zshare-generics=no ;; esac ;;
esac
exec "$@"
