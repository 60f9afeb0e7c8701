#!/bin/bash
# cargo rustc wrapper: compiles wz_reader against the simulated std, and gives the simulator crates access to it
rustc=$1; shift
prev=; name=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
L="dependency=$(dirname "$WZSIM_STD")"
case $name in
 wz_reader) exec "$rustc" "$@" --cfg wz_sim --extern "std=$WZSIM_STD" -L "$L" ;;
 rayon) exec "$rustc" "$@" --extern "std=$WZSIM_STD" -L "$L" ;;
 rayon_core|wzsim) exec "$rustc" "$@" --extern "simstd=$WZSIM_STD" -L "$L" ;;
 image) exec "$rustc" "$@" -L "$L" ;;
 *) exec "$rustc" "$@" ;;
esac
