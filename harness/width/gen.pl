#!/usr/bin/perl
# Generates oracle.go from the Unicode 15.0 data that comes with perl 5.38,
# independently of the tables of the repository.
use strict; use warnings;
use Unicode::UCD qw(prop_invmap charinfo);
use charnames ();
die "need Unicode 15.0.0" unless Unicode::UCD::UnicodeVersion() eq "15.0.0";
my @rows; # [lo, hi, mask, ambiguous, pict]
my $prev;
for my $c (0 .. 0x10ffff) {
  my $ch = chr($c);
  my $mask = 0;   # allowed widths in the default mode: bit w
  my $amb = 0; my $pict = 0;
  if ($c >= 0xd800 && $c <= 0xdfff) { $mask = 1; }
  elsif ($c == 0xfffd) { $mask = 1; $amb = 1; }
  elsif ($c == 0x2e3a) { $mask = 8; }
  elsif ($c == 0x2e3b) { $mask = 16; }
  else {
    no warnings;
    my $w = $ch =~ /\p{East_Asian_Width=W}|\p{East_Asian_Width=F}/ ? 2 : 1;
    $amb = 1 if $ch =~ /\p{East_Asian_Width=A}/;
    $pict = 1 if $c >= 0xff && $ch =~ /\p{Extended_Pictographic}/;
    my $name = charnames::viacode($c) // "";
    if ($ch =~ /\p{Cc}/) { $mask = 1; }
    elsif ($ch =~ /\p{M}/ && $name =~ /COMBINING/) { $mask = 1; }
    elsif ($ch =~ /\p{M}|\p{Cf}|\p{Zl}|\p{Zp}/ || ($c & 0xfffe) == 0xfffe || $c == 0xad) { $mask = 1 | (1 << $w); }
    elsif ($ch =~ /\p{Cn}/ ) { $mask = 1 | (1 << $w); }
    else { $mask = 1 << $w; }
  }
  my $k = "$mask/$amb/$pict";
  if (defined $prev && $prev eq $k) { $rows[-1][1] = $c; next; }
  push @rows, [$c, $c, $mask, $amb, $pict];
  $prev = $k;
}
print "// Code generated by gen.pl from the Unicode 15.0 data of perl. DO NOT EDIT.\n\npackage width\n\n";
print "type row struct {\n\tlo, hi rune\n\tmask  int // bit w is set when width w is right\n\tamb, pict bool\n}\n\n";
print "var oracle = []row{\n";
printf "\t{0x%04X, 0x%04X, %d, %s, %s},\n", $_->[0], $_->[1], $_->[2], $_->[3] ? "true" : "false", $_->[4] ? "true" : "false" for @rows;
print "}\n";
