/* -*- Mode: C -*- */

#ifndef _DLITE_CONFIG_PATHS_H
#define _DLITE_CONFIG_PATHS_H

#define dlite_PATH                    ""
#define dlite_PATH_EXTRA              "/usr/lib/x86_64-linux-gnu"
/* FIXME: This has no meaning for Windows but ./tools/dlite-env.c expects this and does not like backslashes */
#define dlite_LD_LIBRARY_PATH         "/repo/_build/src;/repo/_build/src/utils;/repo/_build/src/pyembed"
#define dlite_PYTHONPATH              "/repo/_build/bindings/python"
#define dlite_PYTHONPATH_NATIVE       "/repo/_build/bindings/python"

//#define dlite_BUILD_ROOT              ""
#define dlite_BUILD_ROOT              "/repo/_build"
#define dlite_INSTALL_ROOT            "/repo/_build/_install"

/* hardcoded paths in build tree */
#define dlite_STORAGE_PLUGINS         "/repo/_build/storages/json;/repo/_build/storages/hdf5;/repo/_build/storages/rdf;/repo/_build/storages/python"
#define dlite_MAPPING_PLUGINS         ""
#define dlite_PYTHON_STORAGE_PLUGINS  "/repo/storages/python/python-storage-plugins"
#define dlite_PYTHON_MAPPING_PLUGINS  "/repo/bindings/python/python-mapping-plugins"
#define dlite_PYTHON_PROTOCOL_PLUGINS "/repo/bindings/python/python-protocol-plugins"
#define dlite_TEMPLATES               "/repo/tools/templates"
#define dlite_STORAGES                "/repo/examples/storages/*.json|/repo/src/datamodels/*.json"

/* dlite-pyembed.c does not imports config.h to avoid conflicts with Python .h
   Include configurations needed by dlite-pyembed.c here */
#ifndef HAVE_SETENV
#define HAVE_SETENV
#endif

#ifndef HAVE__PUTENV_S
/* #undef HAVE__PUTENV_S */
#endif

#ifndef HAVE_UNSETENV
#define HAVE_UNSETENV
#endif



#endif /* _DLITE_CONFIG_PATHS_H */
