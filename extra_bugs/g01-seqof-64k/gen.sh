# sourced by demo.sh: builds asn1scc from the current tree in a scratch directory $d; run_asn1scc ARGS
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 2; trap '/bin/rm -rf "$d"' EXIT
export DOTNET_CLI_TELEMETRY_OPTOUT=1 DOTNET_NOLOGO=1 MSBUILDDISABLENODEREUSE=1 DOTNET_CLI_USE_MSBUILD_SERVER=0 DOTNET_SKIP_FIRST_TIME_EXPERIENCE=1 DOTNET_GENERATE_ASPNET_CERTIFICATE=false
mkdir "$d/c"; tar -C . --exclude=./.git --exclude=bin --exclude=obj --exclude=target --exclude=./v4Tests --exclude=./PUSCScalaTest --exclude=./Docs --exclude='*.stg.fs' -cf - . | tar -C "$d/c" -xf - || exit 2
mkdir -p "$d/c/_shim"; cp -r "$here/shim/FsToolkit" "$d/c/_shim/"; cp "$here/shim/Directory.Build.targets" "$d/c/"
(cd "$d/c" && dotnet build asn1scc/asn1scc.fsproj -nologo -v:q -clp:ErrorsOnly -nodeReuse:false -p:NuGetAudit=false -p:RuntimeIdentifiers= -p:UseSharedCompilation=false -p:RestoreSources=/usr/lib/dotnet/library-packs "-p:OtherFlags=--parallelcompilation+ --optimize- --debug-") || exit 2
run_asn1scc() { dotnet "$d/c/asn1scc/bin/Debug/net10.0/asn1scc.dll" "$@"; }
mkdir "$d/o"; cp "$here"/*.asn1 "$here"/*.acn "$d/" 2>/dev/null; cd "$d"
