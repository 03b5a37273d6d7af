# common part of the demonstrations: a scratch directory, the compiler and the runtimes of /repo
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
unset CLASSPATH PYTHONPATH
R=/repo
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
CP=$R/build/compiler/core/17/jar/zserio_core.jar
for e in cpp java python doc xml; do CP=$CP:$(ls $R/build/compiler/extensions/$e/17/jar/*.jar | head -1); done
for j in $R/3rdparty/java/*.jar; do CP=$CP:$j; done
JRT=$(ls $R/build/runtime_libs/java/17/jar/zserio_runtime.jar 2>/dev/null || ls $R/build/runtime_libs/java/17/jar/*.jar | head -1)
CPPRT=$R/compiler/extensions/cpp/runtime/src
PYRT=$R/compiler/extensions/python/runtime/src
# zs ARGS...: runs the compiler on $W (schema files are beside the demo)
zs() { cp "$HERE"/*.zs "$W"/ ; (cd "$W" && java -cp "$CP" zserio.tools.ZserioTool "$@" > zs.log 2>&1) || { cat "$W"/zs.log; return 1; } ; }
# runpy FILE: python program beside the demo; generated code is in $W/py
runpy() { PYTHONPATH="$W/py:$PYRT" ZSERIO_PYTHON_IMPLEMENTATION=python /opt/venv/bin/python "$HERE/$1"; }
# runjava CLASS: java program beside the demo; generated code is in $W/java
runjava() { mkdir -p "$W/jc"; find "$W/java" -name '*.java' > "$W/srcs" 2>/dev/null || true; "$JAVA_HOME"/bin/javac -nowarn -cp "$JRT" -d "$W/jc" @"$W/srcs" "$HERE/$1.java"
    java -cp "$JRT:$W/jc" $1; }
# runcpp FILE: C++ program beside the demo; generated code is in $W/cpp
runcpp() { local gen=$(find "$W/cpp" -name '*.cpp' 2>/dev/null || true); g++ -std=c++11 -O0 -w $CXXF -I"$W/cpp" -I"$CPPRT" "$HERE/$1" $gen "$R/build/runtime_libs/cpp_lib/libZserioCppRuntime.a" -o "$W/prog" && "$W/prog"; }
zs -src . -python py s.zs; runpy main.py
