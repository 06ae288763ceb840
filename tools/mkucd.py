#!/usr/bin/env python3
"""Development tool: writes harness/ucd15.inc, an independent table of Unicode 15.0 properties taken from perl's database
(general category, White_Space, Join_Control, Alphabetic, Uppercase, Lowercase, XID_Start, XID_Continue, simple case fold),
cross-checked with Python's unicodedata. Ranges of equal entries: first code point, category, property bits, fold offset."""
import os, subprocess, sys, unicodedata
PERL = r'''
use Unicode::UCD qw(prop_invmap prop_invlist casefold);
die "wrong version" unless Unicode::UCD::UnicodeVersion() eq "15.0.0";
my %sets;
sub expand { my ($name)=@_; my @l=prop_invlist($name); my $v="\0" x 0x110000; for(my $i=0;$i<@l;$i+=2){my $e=$i+1<@l?$l[$i+1]:0x110000; for my $c($l[$i]..$e-1){substr($v,$c,1)="\1";}} return $v; }
my @p=map{expand($_)} ("White_Space","Join_Control","Alphabetic","Uppercase","Lowercase","XID_Start","XID_Continue");
my ($starts,$vals)=prop_invmap("General_Category");
my @cat; for my $i(0..$#$starts){my $e=$i<$#$starts?$starts->[$i+1]:0x110000; for my $c($starts->[$i]..$e-1){$cat[$c]=$vals->[$i];}}
for my $c(0..0x10FFFF){ my $b=0; for my $k(0..$#p){$b|=(1<<$k) if substr($p[$k],$c,1) eq "\1";}
 my $f=$c; if($c<0xD800||$c>0xDFFF){my $cf=casefold($c); if($cf && $cf->{simple} ne ""){$f=hex($cf->{simple});}}
 print "$c $cat[$c] $b $f\n"; }
'''
out = subprocess.run(["perl", "-e", PERL], capture_output=True, text=True, check=True).stdout
assert unicodedata.unidata_version == "15.0.0"
rows, last = [], None
for line in out.splitlines():
    c, cat, b, f = line.split()
    c, b, f = int(c), int(b), int(f)
    assert unicodedata.category(chr(c)) == cat, (c, cat)
    key = (cat, b, f - c)
    if key != last:
        rows.append((c,) + key)
        last = key
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "ucd15.inc"), "w") as o:
    for c, cat, b, d in rows:
        o.write("{0x%X,lexy::code_point::%s,%d,%d},\n" % (c, cat, b, d))
print(len(rows), "ranges")
