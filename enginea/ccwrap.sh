#!/bin/bash
# Stand-in for $(CC) in the runtime's own makefiles: records every compile command, really
# compiles only the header generators under config/, and leaves empty object files otherwise.
case " $* " in
 *" -c "*)
  case "$*" in
   *config/*.c*) exec gcc "$@";;
   *) s=""; o=""; prev=""
      for a in "$@"; do [ "$prev" = "-o" ] && o="$a"; case "$a" in *.c|*.s|*.S) s="$a";; esac; prev="$a"; done
      { printf '%s' "$PWD"; for a in "$@"; do printf '\t%s' "$a"; done; printf '\n'; } >> "$CCLOG"
      b=${s##*/}; [ -z "$o" ] && o="${b%.*}.o"; : > "$o"; exit 0;;
  esac;;
 *" run."*) exit 0;;
 *) exec gcc "$@";;
esac
