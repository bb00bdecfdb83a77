// Every use of the Python API in generated code asserts that the thread holds the GIL
// (included by the wrapped header, so after Python.h; what the interpreter does itself is not concerned).
#ifndef VFGIL_H
#define VFGIL_H
#include <Python.h>
#include "vflog.h"
namespace vf {
inline int &nogil() { static int n = 0; return n; }
inline int gil_(const char *what, int line) {
    if (!PyGILState_Check()) { char b[20]; snprintf(b, sizeof b, " line %d", line); ev(std::string("NOGIL ") + what + b); }
    return 0;
}
template <class T> inline void incref_(T *o, int line) { gil_("Py_INCREF", line); Py_INCREF((PyObject *) o); }
template <class T> inline void decref_(T *o, int line) { gil_("Py_DECREF", line); Py_DECREF((PyObject *) o); }
template <class T> inline void xincref_(T *o, int line) { if (o) incref_(o, line); }
template <class T> inline void xdecref_(T *o, int line) { if (o) decref_(o, line); }
template <class T> inline void clear_(T *&o, int line) { if (o) { T *p = o; o = NULL; decref_(p, line); } }
}
#undef Py_INCREF
#undef Py_DECREF
#undef Py_XINCREF
#undef Py_XDECREF
#undef Py_CLEAR
#define Py_INCREF(o) vf::incref_((o), __LINE__)
#define Py_DECREF(o) vf::decref_((o), __LINE__)
#define Py_XINCREF(o) vf::xincref_((o), __LINE__)
#define Py_XDECREF(o) vf::xdecref_((o), __LINE__)
#define Py_CLEAR(o) vf::clear_((o), __LINE__)
#undef PyObject_New
#define PyObject_New(type, tp) (vf::gil_("PyObject_New", __LINE__), (type *) _PyObject_New(tp))
#undef PyObject_GC_New
#define PyObject_GC_New(type, tp) (vf::gil_("PyObject_GC_New", __LINE__), (type *) _PyObject_GC_New(tp))
#ifndef Py_BuildValue
#define Py_BuildValue(...) (vf::gil_("Py_BuildValue", __LINE__), Py_BuildValue(__VA_ARGS__))
#endif
#ifndef PyArg_Parse
#define PyArg_Parse(...) (vf::gil_("PyArg_Parse", __LINE__), PyArg_Parse(__VA_ARGS__))
#endif
#ifndef PyArg_ParseTuple
#define PyArg_ParseTuple(...) (vf::gil_("PyArg_ParseTuple", __LINE__), PyArg_ParseTuple(__VA_ARGS__))
#endif
#ifndef PyArg_ParseTupleAndKeywords
#define PyArg_ParseTupleAndKeywords(...) (vf::gil_("PyArg_ParseTupleAndKeywords", __LINE__), PyArg_ParseTupleAndKeywords(__VA_ARGS__))
#endif
#ifndef PyErr_SetString
#define PyErr_SetString(...) (vf::gil_("PyErr_SetString", __LINE__), PyErr_SetString(__VA_ARGS__))
#endif
#ifndef PyErr_SetNone
#define PyErr_SetNone(...) (vf::gil_("PyErr_SetNone", __LINE__), PyErr_SetNone(__VA_ARGS__))
#endif
#ifndef PyErr_SetObject
#define PyErr_SetObject(...) (vf::gil_("PyErr_SetObject", __LINE__), PyErr_SetObject(__VA_ARGS__))
#endif
#ifndef PyErr_Occurred
#define PyErr_Occurred(...) (vf::gil_("PyErr_Occurred", __LINE__), PyErr_Occurred(__VA_ARGS__))
#endif
#ifndef PyErr_Print
#define PyErr_Print(...) (vf::gil_("PyErr_Print", __LINE__), PyErr_Print(__VA_ARGS__))
#endif
#ifndef PyErr_Clear
#define PyErr_Clear(...) (vf::gil_("PyErr_Clear", __LINE__), PyErr_Clear(__VA_ARGS__))
#endif
#ifndef PyErr_Fetch
#define PyErr_Fetch(...) (vf::gil_("PyErr_Fetch", __LINE__), PyErr_Fetch(__VA_ARGS__))
#endif
#ifndef PyErr_Restore
#define PyErr_Restore(...) (vf::gil_("PyErr_Restore", __LINE__), PyErr_Restore(__VA_ARGS__))
#endif
#ifndef PyErr_NormalizeException
#define PyErr_NormalizeException(...) (vf::gil_("PyErr_NormalizeException", __LINE__), PyErr_NormalizeException(__VA_ARGS__))
#endif
#ifndef PyErr_Format
#define PyErr_Format(...) (vf::gil_("PyErr_Format", __LINE__), PyErr_Format(__VA_ARGS__))
#endif
#ifndef PyErr_ExceptionMatches
#define PyErr_ExceptionMatches(...) (vf::gil_("PyErr_ExceptionMatches", __LINE__), PyErr_ExceptionMatches(__VA_ARGS__))
#endif
#ifndef PyErr_WarnEx
#define PyErr_WarnEx(...) (vf::gil_("PyErr_WarnEx", __LINE__), PyErr_WarnEx(__VA_ARGS__))
#endif
#ifndef PyErr_NoMemory
#define PyErr_NoMemory(...) (vf::gil_("PyErr_NoMemory", __LINE__), PyErr_NoMemory(__VA_ARGS__))
#endif
#ifndef PyObject_CallMethod
#define PyObject_CallMethod(...) (vf::gil_("PyObject_CallMethod", __LINE__), PyObject_CallMethod(__VA_ARGS__))
#endif
#ifndef PyObject_GetAttrString
#define PyObject_GetAttrString(...) (vf::gil_("PyObject_GetAttrString", __LINE__), PyObject_GetAttrString(__VA_ARGS__))
#endif
#ifndef PyObject_GetAttr
#define PyObject_GetAttr(...) (vf::gil_("PyObject_GetAttr", __LINE__), PyObject_GetAttr(__VA_ARGS__))
#endif
#ifndef PyObject_SetAttrString
#define PyObject_SetAttrString(...) (vf::gil_("PyObject_SetAttrString", __LINE__), PyObject_SetAttrString(__VA_ARGS__))
#endif
#ifndef PyObject_CallFunction
#define PyObject_CallFunction(...) (vf::gil_("PyObject_CallFunction", __LINE__), PyObject_CallFunction(__VA_ARGS__))
#endif
#ifndef PyObject_Call
#define PyObject_Call(...) (vf::gil_("PyObject_Call", __LINE__), PyObject_Call(__VA_ARGS__))
#endif
#ifndef PyObject_CallObject
#define PyObject_CallObject(...) (vf::gil_("PyObject_CallObject", __LINE__), PyObject_CallObject(__VA_ARGS__))
#endif
#ifndef PyObject_IsInstance
#define PyObject_IsInstance(...) (vf::gil_("PyObject_IsInstance", __LINE__), PyObject_IsInstance(__VA_ARGS__))
#endif
#ifndef PyObject_IsTrue
#define PyObject_IsTrue(...) (vf::gil_("PyObject_IsTrue", __LINE__), PyObject_IsTrue(__VA_ARGS__))
#endif
#ifndef PyObject_Str
#define PyObject_Str(...) (vf::gil_("PyObject_Str", __LINE__), PyObject_Str(__VA_ARGS__))
#endif
#ifndef PyObject_Repr
#define PyObject_Repr(...) (vf::gil_("PyObject_Repr", __LINE__), PyObject_Repr(__VA_ARGS__))
#endif
#ifndef PyObject_GetIter
#define PyObject_GetIter(...) (vf::gil_("PyObject_GetIter", __LINE__), PyObject_GetIter(__VA_ARGS__))
#endif
#ifndef PyIter_Next
#define PyIter_Next(...) (vf::gil_("PyIter_Next", __LINE__), PyIter_Next(__VA_ARGS__))
#endif
#ifndef PyObject_RichCompareBool
#define PyObject_RichCompareBool(...) (vf::gil_("PyObject_RichCompareBool", __LINE__), PyObject_RichCompareBool(__VA_ARGS__))
#endif
#ifndef PyObject_GenericGetAttr
#define PyObject_GenericGetAttr(...) (vf::gil_("PyObject_GenericGetAttr", __LINE__), PyObject_GenericGetAttr(__VA_ARGS__))
#endif
#ifndef PyObject_GenericSetAttr
#define PyObject_GenericSetAttr(...) (vf::gil_("PyObject_GenericSetAttr", __LINE__), PyObject_GenericSetAttr(__VA_ARGS__))
#endif
#ifndef PyUnicode_FromString
#define PyUnicode_FromString(...) (vf::gil_("PyUnicode_FromString", __LINE__), PyUnicode_FromString(__VA_ARGS__))
#endif
#ifndef PyUnicode_FromStringAndSize
#define PyUnicode_FromStringAndSize(...) (vf::gil_("PyUnicode_FromStringAndSize", __LINE__), PyUnicode_FromStringAndSize(__VA_ARGS__))
#endif
#ifndef PyUnicode_FromFormat
#define PyUnicode_FromFormat(...) (vf::gil_("PyUnicode_FromFormat", __LINE__), PyUnicode_FromFormat(__VA_ARGS__))
#endif
#ifndef PyUnicode_AsUTF8
#define PyUnicode_AsUTF8(...) (vf::gil_("PyUnicode_AsUTF8", __LINE__), PyUnicode_AsUTF8(__VA_ARGS__))
#endif
#ifndef PyUnicode_AsUTF8AndSize
#define PyUnicode_AsUTF8AndSize(...) (vf::gil_("PyUnicode_AsUTF8AndSize", __LINE__), PyUnicode_AsUTF8AndSize(__VA_ARGS__))
#endif
#ifndef PyUnicode_AsUTF8String
#define PyUnicode_AsUTF8String(...) (vf::gil_("PyUnicode_AsUTF8String", __LINE__), PyUnicode_AsUTF8String(__VA_ARGS__))
#endif
#ifndef PyUnicode_FromWideChar
#define PyUnicode_FromWideChar(...) (vf::gil_("PyUnicode_FromWideChar", __LINE__), PyUnicode_FromWideChar(__VA_ARGS__))
#endif
#ifndef PyUnicode_FromUnicode
#define PyUnicode_FromUnicode(...) (vf::gil_("PyUnicode_FromUnicode", __LINE__), PyUnicode_FromUnicode(__VA_ARGS__))
#endif
#ifndef PyUnicode_AsWideChar
#define PyUnicode_AsWideChar(...) (vf::gil_("PyUnicode_AsWideChar", __LINE__), PyUnicode_AsWideChar(__VA_ARGS__))
#endif
#ifndef PyBytes_FromStringAndSize
#define PyBytes_FromStringAndSize(...) (vf::gil_("PyBytes_FromStringAndSize", __LINE__), PyBytes_FromStringAndSize(__VA_ARGS__))
#endif
#ifndef PyBytes_AsString
#define PyBytes_AsString(...) (vf::gil_("PyBytes_AsString", __LINE__), PyBytes_AsString(__VA_ARGS__))
#endif
#ifndef PyLong_FromLong
#define PyLong_FromLong(...) (vf::gil_("PyLong_FromLong", __LINE__), PyLong_FromLong(__VA_ARGS__))
#endif
#ifndef PyLong_AsLong
#define PyLong_AsLong(...) (vf::gil_("PyLong_AsLong", __LINE__), PyLong_AsLong(__VA_ARGS__))
#endif
#ifndef PyLong_FromLongLong
#define PyLong_FromLongLong(...) (vf::gil_("PyLong_FromLongLong", __LINE__), PyLong_FromLongLong(__VA_ARGS__))
#endif
#ifndef PyLong_AsLongLong
#define PyLong_AsLongLong(...) (vf::gil_("PyLong_AsLongLong", __LINE__), PyLong_AsLongLong(__VA_ARGS__))
#endif
#ifndef PyLong_FromUnsignedLong
#define PyLong_FromUnsignedLong(...) (vf::gil_("PyLong_FromUnsignedLong", __LINE__), PyLong_FromUnsignedLong(__VA_ARGS__))
#endif
#ifndef PyLong_FromUnsignedLongLong
#define PyLong_FromUnsignedLongLong(...) (vf::gil_("PyLong_FromUnsignedLongLong", __LINE__), PyLong_FromUnsignedLongLong(__VA_ARGS__))
#endif
#ifndef PyLong_AsUnsignedLong
#define PyLong_AsUnsignedLong(...) (vf::gil_("PyLong_AsUnsignedLong", __LINE__), PyLong_AsUnsignedLong(__VA_ARGS__))
#endif
#ifndef PyLong_AsUnsignedLongLong
#define PyLong_AsUnsignedLongLong(...) (vf::gil_("PyLong_AsUnsignedLongLong", __LINE__), PyLong_AsUnsignedLongLong(__VA_ARGS__))
#endif
#ifndef PyLong_FromVoidPtr
#define PyLong_FromVoidPtr(...) (vf::gil_("PyLong_FromVoidPtr", __LINE__), PyLong_FromVoidPtr(__VA_ARGS__))
#endif
#ifndef PyLong_AsVoidPtr
#define PyLong_AsVoidPtr(...) (vf::gil_("PyLong_AsVoidPtr", __LINE__), PyLong_AsVoidPtr(__VA_ARGS__))
#endif
#ifndef PyBool_FromLong
#define PyBool_FromLong(...) (vf::gil_("PyBool_FromLong", __LINE__), PyBool_FromLong(__VA_ARGS__))
#endif
#ifndef PyFloat_FromDouble
#define PyFloat_FromDouble(...) (vf::gil_("PyFloat_FromDouble", __LINE__), PyFloat_FromDouble(__VA_ARGS__))
#endif
#ifndef PyFloat_AsDouble
#define PyFloat_AsDouble(...) (vf::gil_("PyFloat_AsDouble", __LINE__), PyFloat_AsDouble(__VA_ARGS__))
#endif
#ifndef PyTuple_New
#define PyTuple_New(...) (vf::gil_("PyTuple_New", __LINE__), PyTuple_New(__VA_ARGS__))
#endif
#ifndef PyTuple_GetItem
#define PyTuple_GetItem(...) (vf::gil_("PyTuple_GetItem", __LINE__), PyTuple_GetItem(__VA_ARGS__))
#endif
#ifndef PyTuple_SetItem
#define PyTuple_SetItem(...) (vf::gil_("PyTuple_SetItem", __LINE__), PyTuple_SetItem(__VA_ARGS__))
#endif
#ifndef PyTuple_Size
#define PyTuple_Size(...) (vf::gil_("PyTuple_Size", __LINE__), PyTuple_Size(__VA_ARGS__))
#endif
#ifndef PyList_New
#define PyList_New(...) (vf::gil_("PyList_New", __LINE__), PyList_New(__VA_ARGS__))
#endif
#ifndef PyList_Append
#define PyList_Append(...) (vf::gil_("PyList_Append", __LINE__), PyList_Append(__VA_ARGS__))
#endif
#ifndef PyList_GetItem
#define PyList_GetItem(...) (vf::gil_("PyList_GetItem", __LINE__), PyList_GetItem(__VA_ARGS__))
#endif
#ifndef PyList_Size
#define PyList_Size(...) (vf::gil_("PyList_Size", __LINE__), PyList_Size(__VA_ARGS__))
#endif
#ifndef PyList_SetItem
#define PyList_SetItem(...) (vf::gil_("PyList_SetItem", __LINE__), PyList_SetItem(__VA_ARGS__))
#endif
#ifndef PyDict_New
#define PyDict_New(...) (vf::gil_("PyDict_New", __LINE__), PyDict_New(__VA_ARGS__))
#endif
#ifndef PyDict_GetItem
#define PyDict_GetItem(...) (vf::gil_("PyDict_GetItem", __LINE__), PyDict_GetItem(__VA_ARGS__))
#endif
#ifndef PyDict_GetItemString
#define PyDict_GetItemString(...) (vf::gil_("PyDict_GetItemString", __LINE__), PyDict_GetItemString(__VA_ARGS__))
#endif
#ifndef PyDict_SetItem
#define PyDict_SetItem(...) (vf::gil_("PyDict_SetItem", __LINE__), PyDict_SetItem(__VA_ARGS__))
#endif
#ifndef PyDict_SetItemString
#define PyDict_SetItemString(...) (vf::gil_("PyDict_SetItemString", __LINE__), PyDict_SetItemString(__VA_ARGS__))
#endif
#ifndef PyDict_Next
#define PyDict_Next(...) (vf::gil_("PyDict_Next", __LINE__), PyDict_Next(__VA_ARGS__))
#endif
#ifndef PyDict_Size
#define PyDict_Size(...) (vf::gil_("PyDict_Size", __LINE__), PyDict_Size(__VA_ARGS__))
#endif
#ifndef PySequence_Size
#define PySequence_Size(...) (vf::gil_("PySequence_Size", __LINE__), PySequence_Size(__VA_ARGS__))
#endif
#ifndef PySequence_GetItem
#define PySequence_GetItem(...) (vf::gil_("PySequence_GetItem", __LINE__), PySequence_GetItem(__VA_ARGS__))
#endif
#ifndef PySequence_Contains
#define PySequence_Contains(...) (vf::gil_("PySequence_Contains", __LINE__), PySequence_Contains(__VA_ARGS__))
#endif
#ifndef PyNumber_AsSsize_t
#define PyNumber_AsSsize_t(...) (vf::gil_("PyNumber_AsSsize_t", __LINE__), PyNumber_AsSsize_t(__VA_ARGS__))
#endif
#ifndef PyImport_ImportModule
#define PyImport_ImportModule(...) (vf::gil_("PyImport_ImportModule", __LINE__), PyImport_ImportModule(__VA_ARGS__))
#endif
#ifndef PyModule_GetDict
#define PyModule_GetDict(...) (vf::gil_("PyModule_GetDict", __LINE__), PyModule_GetDict(__VA_ARGS__))
#endif
#ifndef PyCapsule_New
#define PyCapsule_New(...) (vf::gil_("PyCapsule_New", __LINE__), PyCapsule_New(__VA_ARGS__))
#endif
#ifndef PyCapsule_GetPointer
#define PyCapsule_GetPointer(...) (vf::gil_("PyCapsule_GetPointer", __LINE__), PyCapsule_GetPointer(__VA_ARGS__))
#endif
#ifndef PyType_IsSubtype
#define PyType_IsSubtype(...) (vf::gil_("PyType_IsSubtype", __LINE__), PyType_IsSubtype(__VA_ARGS__))
#endif
#ifndef PyObject_GC_UnTrack
#define PyObject_GC_UnTrack(...) (vf::gil_("PyObject_GC_UnTrack", __LINE__), PyObject_GC_UnTrack(__VA_ARGS__))
#endif
#ifndef PyObject_GC_Track
#define PyObject_GC_Track(...) (vf::gil_("PyObject_GC_Track", __LINE__), PyObject_GC_Track(__VA_ARGS__))
#endif
#ifndef PyObject_GC_Del
#define PyObject_GC_Del(...) (vf::gil_("PyObject_GC_Del", __LINE__), PyObject_GC_Del(__VA_ARGS__))
#endif
#ifndef PyObject_Free
#define PyObject_Free(...) (vf::gil_("PyObject_Free", __LINE__), PyObject_Free(__VA_ARGS__))
#endif
#ifndef PyObject_Del
#define PyObject_Del(...) (vf::gil_("PyObject_Del", __LINE__), PyObject_Del(__VA_ARGS__))
#endif
#ifndef PyObject_CallFunctionObjArgs
#define PyObject_CallFunctionObjArgs(...) (vf::gil_("PyObject_CallFunctionObjArgs", __LINE__), PyObject_CallFunctionObjArgs(__VA_ARGS__))
#endif
#ifndef PyObject_CallMethodObjArgs
#define PyObject_CallMethodObjArgs(...) (vf::gil_("PyObject_CallMethodObjArgs", __LINE__), PyObject_CallMethodObjArgs(__VA_ARGS__))
#endif
#ifndef PyTuple_Pack
#define PyTuple_Pack(...) (vf::gil_("PyTuple_Pack", __LINE__), PyTuple_Pack(__VA_ARGS__))
#endif
#ifndef PyCallable_Check
#define PyCallable_Check(...) (vf::gil_("PyCallable_Check", __LINE__), PyCallable_Check(__VA_ARGS__))
#endif
#ifndef PyEval_SaveThread
#define PyEval_SaveThread(...) (vf::gil_("PyEval_SaveThread", __LINE__), PyEval_SaveThread(__VA_ARGS__))
#endif
#endif
