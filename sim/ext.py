"""Stand-ins for external programs: shims around the text tools of the shell
pipelines, eos.x, vmd and structure viewers.  Each takes its behaviour from the
environment, so that the scenario decides it."""
import os, sys
import numpy as np

TOOLS = ['grep', 'egrep', 'fgrep', 'sed', 'awk', 'head', 'tail', 'wc', 'cat', 'tr', 'cut', 'sort', 'uniq']

SHIM = r'''#!/bin/bash
unset LD_PRELOAD FSIM_CTL
n=${0##*/}
k="$PWSIM_CALL|$n|$*"
k=${k//$'\n'/\\n}
[ -n "$SHIM_LOG" ] && echo "$k" >> "$SHIM_LOG"
if [ "$n" = egrep ]; then r=(/usr/bin/grep -E); elif [ "$n" = fgrep ]; then r=(/usr/bin/grep -F); else r=(/usr/bin/$n); fi
if [ "$k" != "$SHIM_KEY" ] && [ "$n" != "$SHIM_TOOL" ]; then exec "${r[@]}" "$@"; fi
case "$SHIM_MODE" in
missing) echo "bash: line 1: $n: command not found" >&2; exit 127;;
exit*) exit ${SHIM_MODE#exit};;
stderr*) "${r[@]}" "$@" ; echo "$n: something went wrong" >&2; exit ${SHIM_MODE#stderr};;
shell) kill -9 $PPID; exit 0;;
partial:*)
  IFS=: read _ f c <<< "$SHIM_MODE"
  t="$SHIM_TMP.$$"
  "${r[@]}" "$@" > "$t"
  s=$(/usr/bin/stat -c %s "$t")
  /usr/bin/head -c $((s*f/1000)) "$t"
  /usr/bin/rm -f "$t"
  if [ $c -lt 0 ]; then kill $c $$; fi
  exit $c;;
esac
exit 99
'''

EOS = r'''#!%(py)s -SE
import os, sys, zlib, signal
def curve(etype, name, nat, v1, v2, n, vol, ene):
    """energies and pressures of a parabola whose minimum and curvature are
    taken from the data"""
    k = min(range(len(vol)), key=lambda i: (ene[i], i))
    v0 = .5 * (vol[0] + vol[-1]) + .1 * (vol[k] - .5 * (vol[0] + vol[-1]))
    e0 = sum(ene) / len(ene)
    c = 1e-4 * (1 + etype) * (1 + .1 * (len(vol) + nat)) + 1e-6 * abs(sum(e * (i + 1) for i, e in enumerate(ene)))
    x = [v1 + (v2 - v1) * i / (n - 1) for i in range(n)]
    E = [(v, e0 + c * (v - v0) ** 2) for v in x]
    P = [(v, -2 * c * (v - v0) * 29421.02648438959) for v in x]
    return [(a / nat, b / nat) for a, b in E], [(a / nat, b) for a, b in P]
def main():
    mode = os.environ.get('FAKE_EOS', 'ok')
    if mode == 'early-exit1': sys.exit(1)
    if mode == 'silent0': sys.exit(0)
    if mode.startswith('kill0'): os.kill(os.getpid(), 9)
    t = [l for l in open('eos.in').read().split('\n') if l.strip()]
    name, nat, etype = t[0].strip(), int(t[1]), int(t[2])
    v1, v2, n = t[3].split(','); v1, v2, n = float(v1), float(v2), int(n)
    m = int(t[4]); d = [tuple(float(x) for x in l.split()) for l in t[5:5 + m]]
    if len(d) != m:
        print('error: eos.in'); sys.exit(0)
    E, P = curve(etype, name, nat, v1, v2, n, [a for a, b in d], [b for a, b in d])
    out = [('PARAM.OUT', 'eos %%s etype %%d\n' %% (name, etype)), ('EVPAI.OUT', ''.join('%%.16g %%.16g\n' %% x for x in E)), ('PVPAI.OUT', ''.join('%%.16g %%.16g\n' %% x for x in P))]
    print('eos.x: fit done' if mode != 'quiet' else '')
    total = sum(len(b) for a, b in out)
    left = total
    if mode.startswith('cut:'):
        _, f, c = mode.split(':'); left = total * int(f) // 1000
    if mode.startswith('rows:'):
        _, which, f = mode.split(':')
        o2 = []
        for a, b in out:
            if a.startswith(which):
                L = b.splitlines(True); b = ''.join(L[:len(L) * int(f) // 1000])
            o2.append((a, b))
        out = o2; left = 10**9
    if mode.startswith('nofile:'):
        out = [x for x in out if not x[0].startswith(mode[7:])]
    for a, b in out:
        if left <= 0: break
        open(a, 'w').write(b[:left]); left -= len(b)
    sys.stdout.flush()
    if mode.startswith('cut:'):
        c = int(c)
        if c < 0: os.kill(os.getpid(), -c)
        sys.exit(c)
    if mode == 'stderr': sys.stderr.write('eos.x: trouble\n')
    if mode.startswith('lateexit'): sys.exit(int(mode[8:]))
if __name__ == '__main__':
    main()
'''

VMD = r'''#!/usr/bin/tclsh
# stand-in for VMD: interprets the Tcl script it gets with -e
set mode [expr {[info exists env(FAKE_VMD)] ? $env(FAKE_VMD) : "ok"}]
if {[info exists env(FAKE_VMD_LOG)]} { set lf [open $env(FAKE_VMD_LOG) a]; puts $lf $argv; close $lf }
set script ""
for {set i 0} {$i < [llength $argv]} {incr i} {
  if {[lindex $argv $i] eq "-e"} { set script [lindex $argv [expr {$i+1}]] }
}
puts "Info) VMD for LINUXAMD64, version 1.9.3"
if {$mode eq "exit1"} { puts "vmd: no display"; exit 1 }
if {$mode eq "silent0"} { exit 0 }
if {$mode eq "kill0"} { exec /bin/kill -9 [pid] }
if {$mode eq "ctrlc"} { exec /bin/kill -INT 0; after 5000 }
if {$mode eq "stderr"} { puts stderr "vmd: libGL error" }
set frames {}
proc mol {cmd fn args} {
  global frames mode
  if {$mode eq "noload"} { error "Unable to load molecule" }
  if {![file exists $fn]} { error "Unable to open file $fn" }
  set fh [open $fn]; set lines [split [read $fh] "\n"]; close $fh
  set nl [llength $lines]
  for {set i 0} {$i < $nl} {incr i} {
    if {[string match "PRIMCOORD*" [string trim [lindex $lines $i]]]} {
      incr i
      set n [lindex [lindex $lines $i] 0]
      set s 0.0
      for {set j 0} {$j < $n} {incr j} {
        incr i
        set l [lindex $lines $i]
        if {[llength $l] < 4} { error "xsf: unexpected end of file" }
        set s [expr {$s + [lindex $l 1] + 2.0*[lindex $l 2] + 3.0*[lindex $l 3]}]
      }
      lappend frames $s
    }
  }
  puts "Info) Using plugin xsf for coordinates from file $fn"
  return 0
}
proc atomselect {molid sel} {
  global mode
  if {$mode eq "nosel"} { error "atomselect: cannot parse selection text: $sel" }
  return $sel
}
proc measure {cmd s1 s2 args} {
  global frames mode
  if {$mode eq "nomeasure"} { error "measure gofr: bad selection" }
  array set o $args
  set first $o(first); set last $o(last); set step $o(step)
  if {$last < 0} { set last [expr {[llength $frames]-1}] }
  set S 0.0; set n 0
  for {set i $first} {$i <= $last} {incr i $step} { set S [expr {$S + [lindex $frames $i]}]; incr n }
  set S [expr {$S/$n}]
  set h [expr {[zlib crc32 "$s1|$s2|$o(usepbc)"] % 1000}]
  set r {}; set g {}; set m {}
  set nb [expr {int(floor($o(rmax)/$o(delta) + 1e-9))}]
  for {set i 0} {$i < $nb} {incr i} {
    lappend r [expr {($i+0.5)*$o(delta)}]; lappend g [expr {$S*($i+1)}]; lappend m [expr {$S*$S + $i + $h}]
  }
  return [list $r $g $m {} {}]
}
proc quit {} { exit 0 }
if {[string match "puts:*" $mode] || [string match "killputs:*" $mode]} {
  rename puts tclputs
  set nputs 0
  proc puts {args} {
    global nputs mode
    if {[llength $args] > 1 && [string match "file*" [lindex $args 0]]} {
      incr nputs
      if {$nputs > [lindex [split $mode :] 1]} {
        if {[string match "kill*" $mode]} { flush [lindex $args 0]; exec /bin/kill -9 [pid] }
        error "error writing \"[lindex $args 0]\": no space left on device"
      }
    }
    uplevel 1 tclputs $args
  }
}
if {[catch {source $script} err]} { puts $err }
# -eofexit
exit 0
'''

VIEW = r'''#!/bin/bash
# stand-in for a structure viewer: viewer [options] structfile
unset LD_PRELOAD FSIM_CTL
f="${@: -1}"
m=${FAKE_VIEW:-ok}
for x in "$@"; do case "$x" in --mode=*) m=${x#--mode=};; esac; done
echo "${0##*/}: $# $*"
if [ -n "$FAKE_SEEN" ]; then
  { printf '%s\n' "$f"; /usr/bin/base64 -w0 "$f" 2>/dev/null || echo -n MISSING; echo; } > "$FAKE_SEEN.part.$$"
  /usr/bin/cat "$FAKE_SEEN.part.$$" >> "$FAKE_SEEN"; /usr/bin/rm -f "$FAKE_SEEN.part.$$"
fi
case "$m" in
ok) exit 0;;
exit*) exit ${m#exit};;
kill*) kill -${m#kill} $$;;
rmfile) /usr/bin/rm -f "$f"; exit 0;;
slow) /usr/bin/sleep 0.05; exit 0;;
ctrlc) trap - INT; kill -INT 0; /usr/bin/sleep 5;;
esac
'''

def put(fn, txt):
    with open(fn, 'w') as f:
        f.write(txt)
    os.chmod(fn, 0o755)

def wrap(dest, prog):
    put(dest, '#!/bin/bash\nunset LD_PRELOAD FSIM_CTL\nexec %s "$@"\n' % prog)

def tools(d):
    """directory with shims for all text tools"""
    os.makedirs(d)
    for t in TOOLS:
        put(os.path.join(d, t), SHIM)
    return d

def programs(d, which=('eos.x', 'vmd', 'xcrysden', 'jmol', 'avogadro')):
    os.makedirs(d); os.makedirs(d + '/.real')
    if 'eos.x' in which:
        put(d + '/.real/eos', EOS % dict(py=sys.executable)); wrap(d + '/eos.x', d + '/.real/eos')
    if 'vmd' in which:
        put(d + '/.real/vmdtcl', VMD); put(d + '/.real/view', VIEW)
        # with -e it is asked to run a script, otherwise to show a file
        put(d + '/vmd', '#!/bin/bash\nunset LD_PRELOAD FSIM_CTL\nif [ "$1" = -dispdev ]; then exec %s "$@"; else exec -a vmd %s "$@"; fi\n' % (d + '/.real/vmdtcl', d + '/.real/view'))
    for v in which:
        if v not in ('eos.x', 'vmd'):
            put(d + '/' + v, VIEW)
    return d

_ns = None
def eos_curve(*a):
    global _ns
    if _ns is None:
        _ns = {'__name__': 'fake'}
        exec((EOS % dict(py='')).split('\n', 1)[1], _ns)
    return _ns['curve'](*a)

def gofr(frames, dr, rmax, sel, first, last, step, usepbc):
    """what the stand-in VMD measures; frames: (nstep, natoms, 3) cartesian"""
    import zlib
    f = frames.sum(axis=1).dot(np.array([1.0, 2.0, 3.0]))
    if last < 0:
        last = len(f) - 1
    S = f[first:last + 1:step].mean()
    nb = int(np.floor(rmax / dr + 1e-9))
    i = np.arange(nb)
    h = zlib.crc32(('%s|%s|%s' % (sel[0], sel[1], usepbc)).encode()) % 1000
    return np.array([(i + .5) * dr, S * (i + 1), S * S + i + h]).T
