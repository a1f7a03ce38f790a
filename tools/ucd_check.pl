#!/usr/bin/perl
# Compares the oracle's frozen Unicode data with Perl's own copy of the Unicode
# Character Database (15.0), on the characters that existed in the version the data is for.
# Development aid, not part of a check. Prints the ranges that differ.
use strict; use warnings; no warnings 'utf8'; use Unicode::UCD qw(charinfo);
my ($dir) = $0 =~ m{^(.*)/}; $dir //= '.';
open my $f, '<', "$dir/../harness/oracle/tables.go" or die;
my (%t, $cur);
while (<$f>) {
	if (/^var (\w+)/) { $cur = $1; next }
	if (defined $cur) { push @{$t{$cur}}, map hex, /0x([0-9A-F]+)/g }
}
sub in_age { my ($v) = @_; my $re = $v == 13 ? qr/\p{Present_In=13.0}/ : qr/\p{Present_In=14.0}/; $re }
my %spec = (
	gcbCR => ['14', qr/\p{GCB=CR}/], gcbLF => ['14', qr/\p{GCB=LF}/], gcbControl => ['14', qr/\p{GCB=Control}/],
	gcbExtend => ['14', qr/\p{GCB=Extend}/], gcbZWJ => ['14', qr/\p{GCB=ZWJ}/], gcbRegionalIndicator => ['14', qr/\p{GCB=RI}/],
	gcbPrepend => ['14', qr/\p{GCB=Prepend}/], gcbSpacingMark => ['14', qr/\p{GCB=SpacingMark}/],
	gcbL => ['14', qr/\p{GCB=L}/], gcbV => ['14', qr/\p{GCB=V}/], gcbT => ['14', qr/\p{GCB=T}/], gcbLV => ['14', qr/\p{GCB=LV}/], gcbLVT => ['14', qr/\p{GCB=LVT}/],
	gcbExtendedPictographic => ['14', qr/\p{ExtPict}/], emoEmojiPresentation => ['14', qr/\p{EPres}/],
	eawF => ['14', qr/\p{EA=F}/], eawW => ['14', qr/\p{EA=W}/],
	rwDoublewidth => ['13', qr/[\p{EA=F}\p{EA=W}]/], rwAmbiguous => ['13', qr/\p{EA=A}/], rwNarrow => ['13', qr/\p{EA=Na}/],
	rwEmoji => ['13', qr/\p{ExtPict}/], rwCombining => ['13', qr/[\p{Mn}\p{Me}]/], rwNonprint => ['13', qr/[\p{Cc}\p{Cf}\p{Cs}\p{Zl}\p{Zp}]/],
);
for my $name (sort keys %spec) {
	my ($v, $re) = @{$spec{$name}}; my $age = in_age($v);
	my @iv = @{$t{$name}}; my %in; # as ranges
	my (@more, @less); my $k = 0; my $n = 0;
	for my $r (0 .. 0x10FFFF) {
		$k += 2 while $k < @iv && $iv[$k + 1] < $r;
		my $have = $k < @iv && $iv[$k] <= $r ? 1 : 0;
		my $ch = chr $r;
		my $want = $ch =~ $re ? 1 : 0;
		next if $have == $want;
		my $assigned = $ch =~ $age ? '' : '(unassigned then)';
		my $l = $have ? \@more : \@less;
		if (@$l && $l->[-1][1] == $r - 1 && $l->[-1][2] eq $assigned) { $l->[-1][1] = $r } else { push @$l, [$r, $r, $assigned] }
		$n++;
	}
	my $show = sub { join ' ', map { sprintf('%X-%X%s', @$_) } grep { $_->[2] eq '' } @_ };
	printf "%s: %d differ; only in table: %s | missing: %s\n", $name, $n, $show->(@more), $show->(@less);
}
