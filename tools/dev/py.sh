export PYTHONPATH=/repo/_build/pkg LD_LIBRARY_PATH=/repo/_build/pkg/awkward PYTHONDONTWRITEBYTECODE=1
exec /opt/vp/venv/bin/python "$@"
