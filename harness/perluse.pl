# Executes commands from standard input with the Perl module, one line of output each
use strict;
use warnings;
no warnings;
use Location;

$| = 1;
my %objects;

sub unh {
	my ($s) = @_;
	return undef if !defined($s) || $s eq "-";
	return $s if substr($s, 0, 1) ne "=";
	return pack("H*", substr($s, 1));
}

sub h {
	my ($v) = @_;
	return "-" if !defined($v);
	return "=" . unpack("H*", $v);
}

my @FLAGS = qw(LOC_NETWORK_FLAG_ANONYMOUS_PROXY LOC_NETWORK_FLAG_SATELLITE_PROVIDER LOC_NETWORK_FLAG_ANYCAST LOC_NETWORK_FLAG_DROP);

my %commands = (
	open => sub { $objects{$_[0]} = Location::init(unh($_[1])); return "ok"; },
	meta => sub { my $db = $objects{$_[0]}; return join(" ", h(Location::get_vendor($db)), h(Location::get_description($db)), h(Location::get_license($db))); },
	verify => sub { return Location::verify($objects{$_[0]}, unh($_[1])) ? "true" : "false"; },
	lookup => sub {
		my ($db, $a) = ($objects{$_[0]}, unh($_[1]));
		my $flags = 0;
		for my $i (0..3) {
			$flags |= 1 << $i if Location::lookup_network_has_flag($db, $a, $FLAGS[$i]);
		}
		return join(" ", h(Location::lookup_country_code($db, $a)), h(Location::lookup_asn($db, $a)), $flags);
	},
	as => sub { return h(Location::get_as_name($objects{$_[0]}, unh($_[1]))); },
	country => sub { return h(Location::get_country_name($objects{$_[0]}, unh($_[1]))) . " " . h(Location::get_continent_code($objects{$_[0]}, unh($_[1]))); },
	countries => sub { return join(" ", "ok", map { h($_) } Location::database_countries($objects{$_[0]})); },
	drop => sub { delete $objects{$_[0]}; return "ok"; },
	close => sub { Location::DESTROY($objects{$_[0]}); return "ok"; },
	copy => sub { $objects{$_[0]} = $objects{$_[1]}; return "ok"; },
	misuse => sub {
		my ($seed, $count, $path, $key, $scratch) = ($_[0], $_[1], unh($_[2]), unh($_[3]), unh($_[4]));
		srand($seed);
		my ($calls, $errors) = (0, 0);
		my %seen;
		my @fns = qw(init verify get_vendor get_description get_license database_countries lookup_country_code lookup_network_has_flag lookup_asn get_country_name get_continent_code get_as_name DESTROY);
		my @pool;
		for my $i (1..$count) {
			if ($i % 40 == 1) {
				my $db = Location::init($path);
				my $closed = Location::init($path);
				Location::DESTROY($closed);
				my $x = 5;
				@pool = ($db, $db, $db, $closed, undef, 0, 1, -1, 4294967295, 4294967296, 18446744073709551615, 1e300, "nan", "inf", "", "DE", "de", "DEU", "XX", "1.2.3.4", "::1", "nonsense", "a\0b",
					"x" x 100000, "\x{20ac}", \$x, \"DE", [], {}, sub { 1 }, \\1, bless({}, "Other"), *STDOUT, qr/x/, $path, $key, $scratch, "/nonexistent", @FLAGS, "Location", "%s%n", 1.5, "12abc");
			}
			my $name = $fns[int(rand(@fns))];
			my $fn = \&{"Location::$name"};
			my @args = map { $pool[int(rand(@pool))] } 1..int(rand(4));
			$args[0] = $pool[int(rand(4))] if rand() < 0.6 && $name ne "init" && @args;
			# The object of the pool is closed by its own name only
			my @r = eval { $fn->(@args) };
			$calls++;
			$errors++ if $@;
			$seen{$name . ($@ ? "!" : "") . scalar(@args)} = 1;
		}
		return "ok $calls $errors " . scalar(keys %seen);
	},
);

while (my $line = <STDIN>) {
	chomp $line;
	my ($name, @args) = split(/ /, $line);
	my $r = eval { $commands{$name}->(@args) };
	print(($@ ? "error " . h("$@") : $r) . "\n");
}
%objects = ();
