package main

// Versions of each ecosystem in ascending order; spellings of one rung are equal.

type ladder [][]string

var semverLadder = ladder{
	{"0.0.0-alpha"}, {"0.0.0-rc.1"}, {"0.0.0", "0.0.0+b"}, {"0.0.1"}, {"0.0.10"}, {"0.9.0"}, {"0.10.0"}, {"1.0.0-alpha"}, {"1.0.0-alpha.1"}, {"1.0.0-alpha.beta"}, {"1.0.0-beta"}, {"1.0.0-beta.2"}, {"1.0.0-beta.11"},
	{"1.0.0-rc.1", "1.0.0-rc.1+b1"}, {"1.0.0", "1.0.0+build.1", "1.0.0+2"}, {"1.0.1"}, {"1.0.10"}, {"1.2.0"}, {"1.9.9"}, {"1.10.0"}, {"2.0.0-0"}, {"2.0.0"}, {"9.0.0"}, {"10.0.0"}, {"20.0.0"}, {"100.0.0"},
}

var debianLadder = ladder{
	{"0.0~rc1-1"}, {"0.0-1"}, {"0.9-1"}, {"0.10-1"}, {"1.0~beta1-1"}, {"1.0~rc1-1"}, {"1.0-1~bpo1"}, {"1.0-1", "0:1.0-1"}, {"1.0-1+deb10u1"}, {"1.0-2"}, {"1.0-10"}, {"1.0.1-1"}, {"1.2-1"}, {"1.10-1", "0:1.10-1"}, {"2.0a-1"}, {"9.1-1"}, {"10.0-1"}, {"v0.1-1"}, {"v1.0-1"}, {"1:0.5-1"}, {"1:0.10-1"}, {"2:0.1-1"},
}

var alpineLadder = ladder{
	{"0.0.0_rc1-r0"}, {"0.0.0-r0"}, {"0.9.0-r0"}, {"0.10.0-r0"}, {"1.0.0_alpha1-r0"}, {"1.0.0_beta2-r0"}, {"1.0.0_beta10-r0"}, {"1.0.0_rc1-r0"}, {"1.0.0-r0"}, {"1.0.0-r2"}, {"1.0.0-r10"}, {"1.0.0_p1-r0"}, {"1.0.1-r0"}, {"1.2.0-r0"}, {"1.10.0-r0"}, {"2.0.0-r0"}, {"10.0.0-r0"},
}

var redhatLadder = ladder{
	{"v0.1-1.el8"}, {"v3.0-1.el8"}, {"0.0~rc1-1.el8"}, {"0.0-1.el8"}, {"0.9-1.el8"}, {"0.10-1.el8"}, {"1.0~rc1-1.el8"}, {"1.0-1.el8", "0:1.0-1.el8"}, {"1.0-2.el8"}, {"1.0-10.el8"}, {"1.0.1-1.el8"}, {"1.2-1.el8"}, {"1.10-1.el8", "0:1.10-1.el8"}, {"2.0-1.el8"}, {"10.0-1.el8"}, {"1:0.5-1.el8"}, {"1:0.10-1.el8"},
}

var ladders = map[string]ladder{
	"npm": semverLadder, "crates.io": semverLadder, "Go": semverLadder, "Hex": semverLadder, "Bitnami": semverLadder, "ConanCenter": semverLadder,
	"GHC": semverLadder, "Julia": semverLadder, "SwiftURL": semverLadder, "Bioconductor": semverLadder,
	"Debian": debianLadder, "Ubuntu": debianLadder,
	"Alpine": alpineLadder, "Wolfi": alpineLadder, "Chainguard": alpineLadder, "Alpaquita": alpineLadder, "MinimOS": alpineLadder,
	"Red Hat": redhatLadder, "Rocky Linux": redhatLadder, "AlmaLinux": redhatLadder, "openSUSE": redhatLadder, "SUSE": redhatLadder, "Mageia": redhatLadder, "openEuler": redhatLadder,
	"PyPI": {
		{"0.0.dev1"}, {"0.0a1"}, {"0.0", "0.0.0"}, {"0.9"}, {"0.10"}, {"1.0.dev1"}, {"1.0a1", "1.0alpha1", "1.0.0a1", "1.0-a1"}, {"1.0b2", "1.0beta2"}, {"1.0b10"}, {"1.0rc1", "1.0c1", "1.0.0rc1"}, {"1.0", "1", "1.0.0", "v1.0", "1.00"}, {"1.0+local.1"}, {"1.0.post1", "1.0-1", "1.0.0.post1"}, {"1.0.1"},
		{"1.2", "1.2.0"}, {"1.10", "1.10.0"}, {"2.0rc1"}, {"2.0"}, {"10.0"}, {"2013.1"}, {"1!0.1"},
	},
	"RubyGems": {
		{"v0.5"}, {"v3.0"}, {"0.9"}, {"0.10"}, {"1.0.a"}, {"1.0.b1"}, {"1.0.rc1"}, {"1.0", "1", "1.0.0"}, {"1.0.1"}, {"1.0.10"}, {"1.2", "1.2.0"}, {"1.10", "1.10.0"}, {"2.0.0.pre.1"}, {"2.0.0.pre.2"}, {"2.0.0.pre.10"}, {"2.0.0", "2"}, {"10.0"},
	},
	"Maven": {
		{"v0.5"}, {"v3.0"}, {"0.0-alpha-1"}, {"0.0", "0.0.0"}, {"0.9"}, {"0.10"}, {"1.0-alpha-1", "1.0-a1"}, {"1.0-beta-1", "1.0-b1"}, {"1.0-beta-10"}, {"1.0-milestone-1", "1.0-m1"}, {"1.0-rc-1", "1.0-cr-1"}, {"1.0-SNAPSHOT"}, {"1.0", "1", "1.0.0", "1.0-ga", "1.0-final"}, {"1.0-sp"}, {"1.0.1"}, {"1.2"}, {"1.10", "1.10.0"}, {"2.0"}, {"10.0"},
	},
	"NuGet": {
		{"0.0.0-alpha"}, {"0.0.0", "0.0"}, {"0.9.0"}, {"0.10.0"}, {"1.0.0-alpha", "1.0.0-ALPHA", "1.0-alpha"}, {"1.0.0-beta.2"}, {"1.0.0-beta.11"}, {"1.0.0", "1.0", "1.0.0.0", "1.0.0+meta"}, {"1.0.0.1"}, {"1.0.0.10"}, {"1.0.1"}, {"1.2.0"}, {"1.10.0", "1.10"}, {"2.0.0"}, {"10.0.0"},
	},
	"Packagist": {
		{"0.0.0-dev"}, {"0.0.0-alpha1"}, {"0.0.0"}, {"0.9.0"}, {"0.10.0"}, {"1.0.0-dev"}, {"1.0.0-alpha1"}, {"1.0.0-beta2"}, {"1.0.0-beta10"}, {"1.0.0-RC1"}, {"1.0.0", "v1.0.0"}, {"1.0.0-p1"}, {"1.0.1"}, {"1.2.0", "v1.2.0"}, {"1.10.0"}, {"2.0.0"}, {"10.0.0"},
	},
	"CRAN":    {{"0.0"}, {"0.9"}, {"0.10"}, {"1.0"}, {"1.0.1", "1.0-1"}, {"1.0.10", "1.0-10"}, {"1.2"}, {"1.10"}, {"2.0"}, {"10.0"}},
	"Hackage": {{"0.0"}, {"0.9"}, {"0.10"}, {"1"}, {"1.0"}, {"1.0.1"}, {"1.0.10"}, {"1.2"}, {"1.10"}, {"2.0"}, {"10.0"}},
	"Pub":     {{"0.0.0-alpha"}, {"0.0.0"}, {"0.9.0"}, {"0.10.0"}, {"1.0.0-alpha"}, {"1.0.0-beta.2"}, {"1.0.0-beta.11"}, {"1.0.0"}, {"1.0.0+1"}, {"1.0.0+10"}, {"1.0.1"}, {"1.2.0"}, {"1.10.0"}, {"2.0.0"}, {"10.0.0"}},
}

var ladderNames = func() []string {
	var l []string
	for k := range ladders {
		l = append(l, k)
	}
	return sorted(l)
}()
