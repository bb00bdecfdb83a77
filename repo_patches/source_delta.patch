From 3540fc1e59bc0109d9c0abd1d46778b1342f1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 01/89] fix: pass the address of a reference out/inout
 parameter when parsing what a Python override returned

---
 pybindgen/typehandlers/doubletype.py |  2 +-
 pybindgen/typehandlers/floattype.py  |  2 +-
 pybindgen/typehandlers/inttype.py    | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pybindgen/typehandlers/doubletype.py b/pybindgen/typehandlers/doubletype.py
index 6c589ed..5f39e3d 100644
--- a/pybindgen/typehandlers/doubletype.py
+++ b/pybindgen/typehandlers/doubletype.py
@@ -68,7 +68,7 @@ class DoubleRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('d', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("d", [self.value], self.name)
+            wrapper.parse_params.add_parameter("d", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'double&'
diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index d51711f..d5979f6 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -113,7 +113,7 @@ class FloatRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('f', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("f", [self.value], self.name)
+            wrapper.parse_params.add_parameter("f", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index d8f953e..731d857 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -212,7 +212,7 @@ class IntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('i', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("i", [self.value], self.name)
+            wrapper.parse_params.add_parameter("i", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -233,7 +233,7 @@ class UnsignedIntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('I', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("I", [self.value], self.name)
+            wrapper.parse_params.add_parameter("I", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -311,7 +311,7 @@ class UInt16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('H', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("H", [self.value], self.name)
+            wrapper.parse_params.add_parameter("H", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -351,7 +351,7 @@ class Int16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('h', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("h", [self.value], self.name)
+            wrapper.parse_params.add_parameter("h", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -389,7 +389,7 @@ class UInt8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", [self.value], self.name)
+            wrapper.parse_params.add_parameter("B", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -446,7 +446,7 @@ class Int8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            wrapper.parse_params.add_parameter("b", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
-- 
2.43.0


From ded6160dacb933524cbd8144f793f52ba5fa7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 02/89] fix: accept negative values for int8_t references and
 pointers, and reject those above 127

---
 pybindgen/typehandlers/inttype.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 731d857..f7bdc3c 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -446,13 +446,21 @@ class Int8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", ['&'+self.value], self.name)
+            tmp_var = wrapper.declarations.declare_variable("int", self.name+"_tmp")
+            wrapper.parse_params.add_parameter("i", ['&'+tmp_var], self.name)
+            wrapper.after_call.write_error_check('%s > 0x7f || %s < -0x80' % (tmp_var, tmp_var),
+                                                 'PyErr_SetString(PyExc_ValueError, "Out of range");')
+            wrapper.after_call.write_code("%s = %s;" % (self.value, tmp_var))
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            tmp_var = wrapper.declarations.declare_variable("int", self.name+"_tmp")
+            wrapper.parse_params.add_parameter('i', ['&'+tmp_var], self.name)
+            wrapper.before_call.write_error_check('%s > 0x7f || %s < -0x80' % (tmp_var, tmp_var),
+                                                  'PyErr_SetString(PyExc_ValueError, "Out of range");')
+            wrapper.before_call.write_code("%s = %s;" % (name, tmp_var))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -695,13 +703,21 @@ class Int8PtrParam(PointerParameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', ['*'+self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            tmp_var = wrapper.declarations.declare_variable("int", self.name+"_tmp")
+            wrapper.parse_params.add_parameter("i", ['&'+tmp_var], self.name)
+            wrapper.after_call.write_error_check('%s > 0x7f || %s < -0x80' % (tmp_var, tmp_var),
+                                                 'PyErr_SetString(PyExc_ValueError, "Out of range");')
+            wrapper.after_call.write_code("*%s = %s;" % (self.value, tmp_var))
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable('int8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            tmp_var = wrapper.declarations.declare_variable("int", self.name+"_tmp")
+            wrapper.parse_params.add_parameter('i', ['&'+tmp_var], self.name)
+            wrapper.before_call.write_error_check('%s > 0x7f || %s < -0x80' % (tmp_var, tmp_var),
+                                                  'PyErr_SetString(PyExc_ValueError, "Out of range");')
+            wrapper.before_call.write_code("%s = %s;" % (name, tmp_var))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
-- 
2.43.0


From b2a0489d60da05e0c5cd6826b01047138c568c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 03/89] fix: range of an int8_t return value taken from Python
 is -128..127

---
 pybindgen/typehandlers/inttype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index f7bdc3c..985ff42 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -474,7 +474,7 @@ class Int8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 128 || %s < -127' % (tmp_var, tmp_var),
+        wrapper.after_call.write_error_check('%s > 127 || %s < -128' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
-- 
2.43.0


From 00310d5d22e617a5584d626476c8dcb314b285e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 04/89] fix: check the lower bound too when narrowing a Python
 int to an 8 or 16 bit type

---
 pybindgen/typehandlers/inttype.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 985ff42..c78bd87 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -256,7 +256,7 @@ class UInt16Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xffff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xffff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -297,7 +297,7 @@ class UInt16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xffff' % name,
+        wrapper.before_call.write_error_check('%s > 0xffff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -336,7 +336,7 @@ class Int16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7fff' % name,
+        wrapper.before_call.write_error_check('%s > 0x7fff || %s < -0x8000' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -375,7 +375,7 @@ class UInt8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xff' % name,
+        wrapper.before_call.write_error_check('%s > 0xff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -411,7 +411,7 @@ class UInt8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -432,7 +432,7 @@ class Int8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7f' % name,
+        wrapper.before_call.write_error_check('%s > 0x7f || %s < -0x80' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
-- 
2.43.0


From fee8fe2bc7d7cb6d5d81711e33bbe4129583c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 05/89] fix: accept the tuple a Python override returns when a
 virtual method has several results

The tuple of results was wrapped into another tuple, so that parsing it always failed.
---
 pybindgen/typehandlers/base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 528d15c..dd03abc 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -303,6 +303,14 @@ class ParseTupleParameters(object):
     def is_empty(self):
         return self.get_parameters() == ['""']
 
+    def get_num_parameters(self):
+        "returns the number of Python values that are parsed"
+        return len([template for (template, dummy, dummy, dummy) in self._parse_tuple_items if template])
+
+    def get_num_parameters(self):
+        "returns the number of Python values that are parsed"
+        return len([template for (template, dummy, dummy, dummy) in self._parse_tuple_items if template])
+
     def get_parameters(self):
         """
         returns a list of parameters to pass into a
@@ -641,8 +649,12 @@ class ReverseWrapperBase(object):
                                                'PyErr_SetString(PyExc_TypeError, "function/method should return None");')
         else:
             ## parse the return value
-            ## this ensures that py_retval is always a tuple
-            self.before_call.write_code('py_retval = Py_BuildValue((char*) "(N)", py_retval);')
+            ## this ensures that py_retval is always a tuple; several
+            ## values are already returned as a tuple by the Python code
+            wrap_in_tuple = 'py_retval = Py_BuildValue((char*) "(N)", py_retval);'
+            if self.parse_params.get_num_parameters() > 1:
+                wrap_in_tuple = 'if (!PyTuple_Check(py_retval)) {\n    %s\n}' % wrap_in_tuple
+            self.before_call.write_code(wrap_in_tuple)
 
             parse_tuple_params = ['py_retval']
             parse_params = self.parse_params.get_parameters()
-- 
2.43.0


From fe3f766ec6649ba9385f0d7cc2e702cb52e655ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 06/89] fix: the return value comes before the out parameters
 for every type

char, C string, std::string, class and container return values were appended after the out parameters instead.
---
 pybindgen/container.py               |  2 +-
 pybindgen/cppclass.py                |  6 +++---
 pybindgen/typehandlers/smart_ptr.py  |  2 +-
 pybindgen/typehandlers/stringtype.py | 10 +++++-----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index a7966db..220469a 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -866,7 +866,7 @@ class ContainerReturnValue(ContainerReturnValueBase):
             raise NotSupportedError("reference return type not supported")
         retval = wrapper.declarations.declare_variable(self.ctype, 'retval')
         assert retval == 'retval'
-        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value])
+        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value], prepend=True)
 
 
 ## end
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9364adc..6015978 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3280,7 +3280,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3361,7 +3361,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3796,7 +3796,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index c0e661b..dd57082 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -355,7 +355,7 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index d98a42a..b3ff828 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -202,7 +202,7 @@ class CharReturn(ReturnValue):
         wrapper.parse_params.add_parameter("c", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value])
+        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value], prepend=True)
 
 
 class CStringReturn(PointerReturnValue):
@@ -217,10 +217,10 @@ class CStringReturn(PointerReturnValue):
         return "return NULL;"
 
     def convert_python_to_c(self, wrapper):
-        wrapper.parse_params.add_parameter("s", ['&'+self.value])
+        wrapper.parse_params.add_parameter("s", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("s", [self.value])
+        wrapper.build_params.add_parameter("s", [self.value], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("free(retval);")
             wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, wrapper.function_name))
@@ -236,7 +236,7 @@ class StdStringReturn(ReturnValue):
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
         len_ = wrapper.declarations.declare_variable("Py_ssize_t", "retval_len")
-        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_])
+        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], prepend=True)
         wrapper.after_call.write_code(
             "%s = std::string(%s, %s);" % (self.value, ptr, len_))
 
@@ -392,7 +392,7 @@ class GlibStringReturn(ReturnValue):
 
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
-        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr])
+        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], prepend=True)
         wrapper.after_call.write_code(
             "%s = Glib::ustring(%s);" % (self.value, ptr))
 
-- 
2.43.0


From 8cc498ceb12b0dea1383e32c43bd10036d0579d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 07/89] fix: honour the default value of float parameters

---
 pybindgen/typehandlers/floattype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index d5979f6..18d52ae 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -17,8 +17,8 @@ class FloatParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name)
-        wrapper.parse_params.add_parameter('f', ['&'+name], self.value)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name, self.default_value)
+        wrapper.parse_params.add_parameter('f', ['&'+name], self.value, optional=bool(self.default_value))
         wrapper.call_params.append(name)
 
 
-- 
2.43.0


From 2798cca23100d51a42c84a2b1f7df02bf21f4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 08/89] fix: check and convert each element of float and
 unsigned int array parameters

The float check named the variable of another array parameter when there was more than one, and the
unsigned int conversion called a function that does not exist in the Python C API.
---
 pybindgen/typehandlers/floattype.py | 2 +-
 pybindgen/typehandlers/inttype.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index 18d52ae..cc9d23f 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -82,7 +82,7 @@ class FloatPtrParam(Parameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyFloat_Check(element)',
+                        '!PyFloat_Check(%(elem)s)' % vars(),
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i floats");'
                         % (self.name, self.array_length))
                 wrapper.before_call.write_code("%(name)s[%(idx)s] = (float) PyFloat_AsDouble(%(elem)s);" % vars())
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index c78bd87..2695f3f 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -91,10 +91,11 @@ class UnsignedIntPtrParam(PointerParameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyNumber_Check(%(elem)s)',
+                        '!PyNumber_Check(%(elem)s)' % vars(),
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i ints / longs");'
                         % (self.name, self.array_length))
-                wrapper.before_call.write_code("%(name)s[%(idx)s] = PyLong_AsUnsignedInt(%(elem)s);" % vars())
+                wrapper.before_call.write_code("%(name)s[%(idx)s] = PyLong_AsUnsignedLongMask(%(elem)s);" % vars())
+                wrapper.before_call.write_error_check('PyErr_Occurred()')
 
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-- 
2.43.0


From 2916682c474103e7821541f7c57dd4f6bde1a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 09/89] fix: generate valid code for int* parameters with a
 NULL default value

The generated code took the address of the PyObject* variable and misspelled Py_INCREF.
---
 pybindgen/typehandlers/inttype.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 2695f3f..6b3bef7 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -154,7 +154,7 @@ class IntPtrParam(PointerParameter):
             else:
                 raise TypeConfigurationError("direction not given")
         
-        super(IntPtrParam, self).__init__(ctype, name, direction, is_const, transfer_ownership)
+        super(IntPtrParam, self).__init__(ctype, name, direction, is_const, transfer_ownership=transfer_ownership)
         self.default_value = default_value
     
     def convert_c_to_python(self, wrapper):
@@ -176,8 +176,8 @@ class IntPtrParam(PointerParameter):
                 wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
                 wrapper.before_call.write_code(
                     "if (%(name_obj)s) {\n"
-                    "    %(name_int)s = PyInt_AsLong(%(name_obj)s);\n"
-                    "    %(name_ptr)s = &%(name_obj)s;\n"
+                    "    PyArg_Parse(%(name_obj)s, (char *) \"i\", &%(name_int)s);\n"
+                    "    %(name_ptr)s = &%(name_int)s;\n"
                     "} else {\n"
                     "    %(name_ptr)s = NULL;\n"
                     "}\n"
@@ -186,10 +186,10 @@ class IntPtrParam(PointerParameter):
             if self.direction & self.DIRECTION_OUT:
                 wrapper.after_call.write_code(
                     "if (%(name_obj)s) {\n"
-                    "    %(name_obj)s = PyInt_FromLong(%(name_int)s);\n"
+                    "    %(name_obj)s = PyLong_FromLong(%(name_int)s);\n"
                     "} else {\n"
                     "    %(name_obj)s = Py_None;\n"
-                    "    Py_INCREC(%(name_obj)s);\n"
+                    "    Py_INCREF(%(name_obj)s);\n"
                     "}\n"
                     % vars())
                 wrapper.build_params.add_parameter("N", [name_obj])
-- 
2.43.0


From 92a894b4edc4c6b3693084453975398aeac6cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 10/89] fix: do not leave an exception pending when a value
 returned by a Python override is rejected

The C/C++ caller of a virtual method cannot receive the exception, and the next Python call failed with a
SystemError instead; it is printed, like the other errors of a reverse wrapper.
---
 pybindgen/typehandlers/base.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index dd03abc..7861cd8 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -519,6 +519,20 @@ class DeclarationsScope(object):
 
 
 
+class ReverseCodeBlock(CodeBlock):
+    """
+    A code block of a reverse wrapper: the C/C++ caller cannot receive
+    Python exceptions, so errors are reported before returning.
+    """
+
+    def write_error_check(self, failure_expression, failure_cleanup=None):
+        """See CodeBlock.write_error_check"""
+        report_error = 'if (PyErr_Occurred())\n    PyErr_Print();'
+        if failure_cleanup is not None:
+            report_error = failure_cleanup + '\n' + report_error
+        super(ReverseCodeBlock, self).write_error_check(failure_expression, report_error)
+
+
 class ReverseWrapperBase(object):
     """Generic base for all reverse wrapper generators.
 
@@ -573,9 +587,9 @@ class ReverseWrapperBase(object):
             error_return = return_value.get_c_error_return()
         self.error_return = error_return
         self.declarations = DeclarationsScope()
-        self.before_call = CodeBlock(error_return, self.declarations)
-        self.after_call = CodeBlock(error_return, self.declarations,
-                                    predecessor=self.before_call)
+        self.before_call = ReverseCodeBlock(error_return, self.declarations)
+        self.after_call = ReverseCodeBlock(error_return, self.declarations,
+                                           predecessor=self.before_call)
         self.build_params = BuildValueParameters()
         self.parse_params = ParseTupleParameters()
         self._generate_gil_code()
-- 
2.43.0


From 169c65482a3eb971dcbf2068f989e8ae0758859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 11/89] fix: take the GIL again before raising a translated C++
 exception from an unblock_threads wrapper

The catch handler used the Python C API, and returned to Python, without holding the GIL.
---
 pybindgen/cppmethod.py         |  3 +++
 pybindgen/function.py          |  1 +
 pybindgen/typehandlers/base.py | 18 +++++++++++++++---
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 06263fa..ffb75bd 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -301,6 +301,7 @@ class CppMethod(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_block_threads(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
@@ -680,6 +681,7 @@ class CppConstructor(ForwardWrapperBase):
                     raise CodeGenerationError("private/protected constructor")
                 class_.get_construct_name()
             except CodeGenerationError:
+                self.write_block_threads(self.before_call)
                 self.before_call.write_code('PyErr_SetString(PyExc_TypeError, "class \'%s\' '
                                             'cannot be constructed");' % class_.name)
                 self.before_call.write_code('return -1;')
@@ -696,6 +698,7 @@ class CppConstructor(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_block_threads(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return -1;')
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 6d4069b..0062fce 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -214,6 +214,7 @@ class Function(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_block_threads(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 7861cd8..1dead08 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -800,6 +800,7 @@ class ForwardWrapperBase(object):
         self.force_parse = force_parse
         self.meth_flags = []
         self.unblock_threads = unblock_threads
+        self.py_thread_state = None # name of the PyThreadState* variable, if unblock_threads
         self.no_c_retval = no_c_retval
         self.overload_index = None
         self.deprecated = False
@@ -866,6 +867,17 @@ class ForwardWrapperBase(object):
         """
         pass
 
+    def write_block_threads(self, code_block):
+        """
+        Write code that takes the Python GIL again, if the wrapper
+        releases it during the C function call; needed on every path
+        out of the C function call.
+        """
+        if self.py_thread_state is not None:
+            code_block.write_code(
+                "\nif (%s)\n"
+                "     PyEval_RestoreThread(%s);\n" % (self.py_thread_state, self.py_thread_state))
+
     def write_open_wrapper(self, code_sink, add_static=False):
         assert self.wrapper_actual_name is not None
         assert self.wrapper_return is not None
@@ -888,11 +900,11 @@ class ForwardWrapperBase(object):
         code_sink -- a CodeSink object that will receive the code
         """
 
+        self.py_thread_state = None
         if self.unblock_threads:
             py_thread_state = self.declarations.declare_variable("PyThreadState*", "py_thread_state", "NULL")
-            self.after_call.write_code(
-                "\nif (%s)\n"
-                "     PyEval_RestoreThread(%s);\n" % (py_thread_state, py_thread_state))
+            self.py_thread_state = py_thread_state
+            self.write_block_threads(self.after_call)
 
         ## convert the input parameters
         for param in self.parameters:
-- 
2.43.0


From 94fdbe2de47d8c3859cdab25565bac3de3e9f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 12/89] fix: declare the return value variable without const
 for 'T const &' returns

The generated code assigned to a const std::string variable and did not compile.
---
 pybindgen/typehandlers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 1dead08..499a11c 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -820,7 +820,9 @@ class ForwardWrapperBase(object):
             and self.return_value.ctype != 'void'
             and not self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR
             and not self.return_value.NO_RETVAL_DECL):
-            self.declarations.declare_variable(str(self.return_value.type_traits.ctype_no_const_no_ref), 'retval')
+            # if the type is 'foo const &', get back 'foo'
+            retval_traits = ctypeparser.TypeTraits(str(self.return_value.type_traits.ctype_no_const_no_ref))
+            self.declarations.declare_variable(str(retval_traits.ctype_no_const_no_ref), 'retval')
 
         self.declarations.reserve_variable('args')
         self.declarations.reserve_variable('kwargs')
-- 
2.43.0


From bb80bf662555daf128860424930fe17e1c898b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 13/89] fix: propagate the error of an object whose truth value
 cannot be determined

A bool parameter was taken as true, and the call went ahead with an exception set.
---
 pybindgen/typehandlers/booltype.py | 34 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index 5fadd2d..7f3559e 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -5,6 +5,17 @@ from .base import ReturnValue, Parameter, \
      ReverseWrapperBase, ForwardWrapperBase
 
 
+def write_bool_from_python(wrapper, code_block, value, py_value):
+    """
+    Write code that assigns the truth value of a PyObject* to a C bool,
+    or fails if the truth value of the object is not defined.
+    """
+    truth = wrapper.declarations.declare_variable('int', 'py_truth')
+    code_block.write_code("%s = PyObject_IsTrue(%s);" % (truth, py_value))
+    code_block.write_error_check("%s < 0" % truth)
+    code_block.write_code("%s = (%s != 0);" % (value, truth))
+
+
 class BoolParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN]
@@ -23,9 +34,13 @@ class BoolParam(Parameter):
             py_name = wrapper.declarations.declare_variable('PyObject *', 'py_'+self.name, 'NULL')
         wrapper.parse_params.add_parameter('O', ['&'+py_name], self.value, optional=(self.default_value is not None))
         if self.default_value:
-            wrapper.before_call.write_code("%s = %s? (bool) PyObject_IsTrue(%s) : %s;" % (name, py_name, py_name, self.default_value))
+            wrapper.before_call.write_code("if (%s) {" % py_name)
+            wrapper.before_call.indent()
+            write_bool_from_python(wrapper, wrapper.before_call, name, py_name)
+            wrapper.before_call.unindent()
+            wrapper.before_call.write_code("} else {\n    %s = %s;\n}" % (name, self.default_value))
         else:
-            wrapper.before_call.write_code("%s = (bool) PyObject_IsTrue(%s);" % (name, py_name))
+            write_bool_from_python(wrapper, wrapper.before_call, name, py_name)
         wrapper.call_params.append(name)
 
 
@@ -39,8 +54,7 @@ class BoolReturn(ReturnValue):
     def convert_python_to_c(self, wrapper):
         py_name = wrapper.declarations.declare_variable('PyObject *', 'py_boolretval')
         wrapper.parse_params.add_parameter("O", ["&"+py_name], prepend=True)
-        wrapper.after_call.write_code(
-            "%s = PyObject_IsTrue(%s);" % (self.value, py_name))
+        write_bool_from_python(wrapper, wrapper.after_call, self.value, py_name)
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter(
@@ -61,8 +75,7 @@ class BoolPtrParam(Parameter):
             py_name = wrapper.declarations.declare_variable(
                 'PyObject *', 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.after_call.write_code(
-                "*%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
+            write_bool_from_python(wrapper, wrapper.after_call, '*'+self.value, py_name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool*'
@@ -72,8 +85,7 @@ class BoolPtrParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.before_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            write_bool_from_python(wrapper, wrapper.before_call, name, py_name)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % name])
@@ -93,8 +105,7 @@ class BoolRefParam(Parameter):
             py_name = wrapper.declarations.declare_variable(
                 'PyObject *', 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.name)
-            wrapper.after_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
+            write_bool_from_python(wrapper, wrapper.after_call, self.value, py_name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool&'
@@ -103,8 +114,7 @@ class BoolRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.before_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            write_bool_from_python(wrapper, wrapper.before_call, name, py_name)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % (name,)])
-- 
2.43.0


From 405919f4af97f2be4df00f9a23722f400b3441a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 14/89] fix: pass narrow integer and size_t arguments with
 their declared type, so that the right C++ overload is called

---
 pybindgen/typehandlers/inttype.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 6b3bef7..cf5871a 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -300,7 +300,7 @@ class UInt16Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0xffff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class UInt16RefParam(Parameter):
 
@@ -339,7 +339,7 @@ class Int16Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0x7fff || %s < -0x8000' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 
 class Int16RefParam(Parameter):
@@ -378,7 +378,7 @@ class UInt8Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0xff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class UInt8RefParam(Parameter):
 
@@ -435,7 +435,7 @@ class Int8Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0x7f || %s < -0x80' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class Int8RefParam(Parameter):
 
@@ -640,7 +640,7 @@ class SizeTParam(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("unsigned PY_LONG_LONG", self.name, self.default_value)
         wrapper.parse_params.add_parameter('K', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 
 
-- 
2.43.0


From 69fa04e424dbe9725bf83e420da936fb360487cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 15/89] fix: a NULL pointer returned next to out parameters
 must not drop the out parameters and the cleanup code

---
 pybindgen/cppclass.py               | 23 +++++++++++++++--------
 pybindgen/typehandlers/smart_ptr.py | 14 ++++++++------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6015978..ae4bd45 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3766,23 +3766,25 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
 
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # a NULL value is converted to None
+        wrapper.after_call.write_code("if (!(%s)) {\n"
+                                      "    Py_INCREF(Py_None);\n"
+                                      "    %s = (%s *) Py_None;\n"
+                                      "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, self.caller_owns_return,
                                     self.reference_existing_object,
                                     type_is_pointer=True,
                                     caller_manages_return=self.caller_manages_return,
                                     free_after_copy=self.free_after_copy)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
@@ -3875,7 +3877,10 @@ def scan_custodians_and_wards(wrapper):
 
 def _add_ward(code_block, custodian, ward):
     wards = code_block.declare_variable(
-        'PyObject*', 'wards')
+        'PyObject*', 'wards', 'NULL')
+    # there is no custodian when a NULL pointer was passed or returned
+    code_block.write_code("if (%(custodian)s && %(custodian)s != Py_None) {" % vars())
+    code_block.indent()
     code_block.write_code(
         "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
         % vars())
@@ -3888,7 +3893,9 @@ def _add_ward(code_block, custodian, ward):
     code_block.write_code(
         "if (%(ward)s && !PySequence_Contains(%(wards)s, %(ward)s))\n"
         "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
-    code_block.add_cleanup_code("Py_DECREF(%s);" % wards)
+    code_block.unindent()
+    code_block.write_code("}")
+    code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
 
 
 def _get_custodian_or_ward(wrapper, num):
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index dd57082..2dc27a2 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -330,21 +330,23 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
         
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # a NULL value is converted to None
+        wrapper.after_call.write_code("if (!(%s)) {\n"
+                                      "    Py_INCREF(Py_None);\n"
+                                      "    %s = (%s *) Py_None;\n"
+                                      "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, caller_owns_return=True,
                                     reference_existing_object=False,
                                     type_is_pointer=True)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
-- 
2.43.0


From 2985c8806bb94ea2bd36072bc65203b707c6c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 16/89] fix: add wrappers made by constructors to the wrapper
 registry, and remove cleared ones

---
 pybindgen/cppclass.py         | 40 ++++++++++++++++++++++++++---------
 pybindgen/cppmethod.py        |  1 +
 pybindgen/wrapper_registry.py |  2 +-
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index ae4bd45..3e57f10 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2456,15 +2456,20 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         ## --- tp_clear ---
         tp_clear_function_name = "%s__tp_clear" % (self.pystruct,)
         self.slots.setdefault("tp_clear", tp_clear_function_name )
-        delete_code = self._get_delete_code()
+        code_block = CodeBlock("return;", DeclarationsScope())
+        code_block.write_code("Py_CLEAR(self->inst_dict);")
+        # the C++ object may be gone after this, yet the wrapper may still exist for a while
+        self.write_unregister_wrapper(code_block, 'self')
+        code_block.write_code(self._get_delete_code())
         code_sink.writeln(r'''
 static void
 %s(%s *self)
-{
-    Py_CLEAR(self->inst_dict);
-    %s
-}
-''' % (tp_clear_function_name, self.pystruct, delete_code))
+{''' % (tp_clear_function_name, self.pystruct))
+        code_sink.indent()
+        code_block.declarations.get_code_sink().flush_to(code_sink)
+        code_block.sink.flush_to(code_sink)
+        code_sink.unindent()
+        code_sink.writeln('}\n')
 
         ## --- tp_traverse ---
         tp_traverse_function_name = "%s__tp_traverse" % (self.pystruct,)
@@ -2562,10 +2567,7 @@ static void
 
         code_block = CodeBlock("PyErr_Print(); return;", DeclarationsScope())
 
-        if self.memory_policy is not None:
-            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.memory_policy.get_pointer_to_void_name('self->obj'))
-        else:
-            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', 'self->obj')
+        self.write_unregister_wrapper(code_block, 'self')
 
         if self.allow_subclassing:
             code_block.write_code("%s(self);" % self.slots["tp_clear"])
@@ -2643,6 +2645,24 @@ if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
             'PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
                 alias, self.pytypestruct))
 
+    def write_register_wrapper(self, code_block, wrapper):
+        """
+        Generates code to add a wrapper to the wrapper registry, if any.
+        """
+        obj = '%s->obj' % wrapper
+        if self.memory_policy is not None:
+            obj = self.memory_policy.get_pointer_to_void_name(obj)
+        self.wrapper_registry.write_register_new_wrapper(code_block, wrapper, obj)
+
+    def write_unregister_wrapper(self, code_block, wrapper):
+        """
+        Generates code to remove a wrapper from the wrapper registry, if any.
+        """
+        obj = '%s->obj' % wrapper
+        if self.memory_policy is not None:
+            obj = self.memory_policy.get_pointer_to_void_name(obj)
+        self.wrapper_registry.write_unregister_wrapper(code_block, wrapper, obj)
+
     def write_allocate_pystruct(self, code_block, lvalue, wrapper_type=None):
         """
         Generates code to allocate a python wrapper structure, using
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index ffb75bd..5c5a925 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -713,6 +713,7 @@ class CppConstructor(ForwardWrapperBase):
     def _before_return_hook(self):
         "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
         from . import cppclass
+        self._class.write_register_wrapper(self.after_call, 'self')
         cppclass.implement_parameter_custodians_postcall(self)
 
     def generate(self, code_sink, wrapper_name=None, extra_wrapper_params=()):
diff --git a/pybindgen/wrapper_registry.py b/pybindgen/wrapper_registry.py
index bdc14d6..f7e1ca9 100644
--- a/pybindgen/wrapper_registry.py
+++ b/pybindgen/wrapper_registry.py
@@ -123,7 +123,7 @@ class StdMapWrapperRegistry(WrapperRegistry):
         #                      % (object_rvalue))
         iterator = code_block.declare_variable("std::map<void*, PyObject*>::iterator", "wrapper_lookup_iter")
         code_block.write_code("%(ITER)s = %(MAP)s.find((void *) %(OBJECT_VALUE)s);\n"
-                              "if (%(ITER)s != %(MAP)s.end()) {\n"
+                              "if (%(ITER)s != %(MAP)s.end() && %(ITER)s->second == (PyObject *) %(WRAPPER)s) {\n"
                               "    %(MAP)s.erase(%(ITER)s);\n"
                               "}\n"
                               % dict(ITER=iterator, MAP=self.map_name, WRAPPER=wrapper_lvalue, OBJECT_VALUE=object_rvalue))
-- 
2.43.0


From f6c95f3e7122234d286bdac52e9d96e0152fecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 17/89] fix: do not delete the object of the caller when a
 Python override with a class inout parameter fails

---
 pybindgen/cppclass.py | 91 ++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 53 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 3e57f10..8dca149 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2937,6 +2937,42 @@ class CppClassParameterBase(Parameter):
         self.take_value_from_python_self = False
 
 
+    def _add_temporary_wrapper_cleanup(self, wrapper, value):
+        """
+        Reverse wrappers, out/inout parameters: add the code that
+        releases the temporary wrapper of a C++ object that is not
+        owned by Python.  This has to run no matter how the python
+        call ended, else an object of the caller would be deleted.
+        """
+        cleanup = CodeBlock("", wrapper.declarations)
+        if self.cpp_class.has_copy_constructor:
+            ## if after the call we notice the callee kept a reference
+            ## to the pyobject, we then swap pywrapper->obj for a copy
+            ## of the original object.  Else the ->obj pointer is
+            ## simply erased (we never owned this object in the first
+            ## place).
+            cleanup.write_code(
+                "if (Py_REFCNT(%s) == 1)\n"
+                "    %s->obj = NULL;\n"
+                "else {" % (self.py_name, self.py_name))
+            cleanup.indent()
+            self.cpp_class.write_create_instance(cleanup,
+                                                 "%s->obj" % self.py_name,
+                                                 value)
+            self.cpp_class.write_register_wrapper(cleanup, self.py_name)
+            self.cpp_class.write_post_instance_creation_code(cleanup,
+                                                             "%s->obj" % self.py_name,
+                                                             value)
+            cleanup.unindent()
+            cleanup.write_code('}')
+        else:
+            ## it's not safe for the python wrapper to keep a
+            ## pointer to the object anymore; just set it to NULL.
+            cleanup.write_code("%s->obj = NULL;" % (self.py_name,))
+        cleanup.write_code("Py_DECREF(%s);" % self.py_name)
+        wrapper.before_call.add_cleanup_code(cleanup.sink.flush().rstrip())
+
+
 class CppClassReturnValueBase(ReturnValue):
     "Class return handlers -- base class"
     CTYPES = []
@@ -3221,33 +3257,7 @@ class CppClassRefParameter(CppClassParameterBase):
             wrapper.before_call.write_code(
                 "%s->obj = %s;" % (self.py_name, value))
             wrapper.build_params.add_parameter("O", [self.py_name])
-            wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
-
-            if self.cpp_class.has_copy_constructor:
-                ## if after the call we notice the callee kept a reference
-                ## to the pyobject, we then swap pywrapper->obj for a copy
-                ## of the original object.  Else the ->obj pointer is
-                ## simply erased (we never owned this object in the first
-                ## place).
-                wrapper.after_call.write_code(
-                    "if (Py_REFCNT(%s) == 1)\n"
-                    "    %s->obj = NULL;\n"
-                    "else{\n" % (self.py_name, self.py_name))
-                wrapper.after_call.indent()
-                self.cpp_class.write_create_instance(wrapper.after_call,
-                                                     "%s->obj" % self.py_name,
-                                                     self.value)
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, self.py_name,
-                                                                           "%s->obj" % self.py_name)
-                self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                 "%s->obj" % self.py_name,
-                                                                 self.value)
-                wrapper.after_call.unindent()
-                wrapper.after_call.write_code('}')
-            else:
-                ## it's not safe for the python wrapper to keep a
-                ## pointer to the object anymore; just set it to NULL.
-                wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
+            self._add_temporary_wrapper_cleanup(wrapper, self.value)
 
 
 class CppClassReturnValue(CppClassReturnValueBase):
@@ -3591,32 +3601,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call.write_code(
                             "%s->obj = %s;" % (self.py_name, unconst_value))
                         wrapper.build_params.add_parameter("O", [self.py_name])
-                        wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
-
-                        if self.cpp_class.has_copy_constructor:
-                            ## if after the call we notice the callee kept a reference
-                            ## to the pyobject, we then swap pywrapper->obj for a copy
-                            ## of the original object.  Else the ->obj pointer is
-                            ## simply erased (we never owned this object in the first
-                            ## place).
-
-                            wrapper.after_call.write_code(
-                                "if (Py_REFCNT(%s) == 1)\n"
-                                "    %s->obj = NULL;\n"
-                                "else {\n" % (self.py_name, self.py_name))
-                            wrapper.after_call.indent()
-                            self.cpp_class.write_create_instance(wrapper.after_call,
-                                                                 "%s->obj" % self.py_name,
-                                                                 '*'+value)
-                            self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                             "%s->obj" % self.py_name,
-                                                                             '*'+value)
-                            wrapper.after_call.unindent()
-                            wrapper.after_call.write_code('}')
-                        else:
-                            ## it's not safe for the python wrapper to keep a
-                            ## pointer to the object anymore; just set it to NULL.
-                            wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
+                        self._add_temporary_wrapper_cleanup(wrapper, '*'+value)
                 else:
                     ## The PyObject gets a new reference to the same obj
                     self.cpp_class.memory_policy.write_incref(wrapper.before_call, value)
-- 
2.43.0


From 4d3392221daf301ca11a44f4d9e985765115f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 18/89] fix: do not take a reference for the callee when a
 later parameter is rejected

---
 pybindgen/cppclass.py          | 15 +++++++++------
 pybindgen/typehandlers/base.py |  7 +++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 8dca149..64306a7 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3525,13 +3525,16 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.after_call.write_code('%s->obj = NULL;' % self.py_name)
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
-            else:
-                wrapper.before_call.write_code("if (%s) {" % self.py_name)
-                wrapper.before_call.indent()
-                self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
-                wrapper.before_call.unindent()
-                wrapper.before_call.write_code("}")
 
+    def write_before_call(self, wrapper):
+        """See Parameter.write_before_call"""
+        if self.transfer_ownership and isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
+            ## the callee gets a reference of its own
+            wrapper.before_call.write_code("if (%s) {" % self.py_name)
+            wrapper.before_call.indent()
+            self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
+            wrapper.before_call.unindent()
+            wrapper.before_call.write_code("}")
 
     def convert_c_to_python(self, wrapper):
         """foo"""
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 499a11c..dc2b1dd 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -926,6 +926,9 @@ class ForwardWrapperBase(object):
 
         self._before_call_hook()
 
+        for param in self.parameters:
+            param.write_before_call(self)
+
         if self.unblock_threads:
             self.before_call.write_code(
                 "\nif (PyEval_ThreadsInitialized ())\n"
@@ -1363,6 +1366,10 @@ class _Parameter(TypeHandler):
         #assert isinstance(wrapper, ReverseWrapperBase)
         raise NotImplementedError
 
+    def write_before_call(self, wrapper):
+        '''Write code that must only run once no parameter can be
+        rejected any more, i.e. right before calling the C function.'''
+
 if PY3:
     Parameter = types.new_class("Parameter", (_Parameter,), dict(metaclass=ParameterMeta))
 else:
-- 
2.43.0


From 88ade98dd073bcdf10d9775ba5ba37406800d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 19/89] fix: None passed for a pointer parameter with
 transfer_ownership is not a wrapper

---
 pybindgen/cppclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 64306a7..00e4f8a 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3512,7 +3512,7 @@ class CppClassPtrParameter(CppClassParameterBase):
         if self.transfer_ownership:
             if not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
                 # if we transfer ownership, in the end we no longer own the object, so clear our pointer
-                wrapper.after_call.write_code('if (%s) {' % self.py_name)
+                wrapper.after_call.write_code('if (%s && (PyObject *) %s != Py_None) {' % (self.py_name, self.py_name))
                 wrapper.after_call.indent()
                 if self.cpp_class.memory_policy is not None:
                     self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
@@ -3530,7 +3530,7 @@ class CppClassPtrParameter(CppClassParameterBase):
         """See Parameter.write_before_call"""
         if self.transfer_ownership and isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
             ## the callee gets a reference of its own
-            wrapper.before_call.write_code("if (%s) {" % self.py_name)
+            wrapper.before_call.write_code("if (%s && (PyObject *) %s != Py_None) {" % (self.py_name, self.py_name))
             wrapper.before_call.indent()
             self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
             wrapper.before_call.unindent()
-- 
2.43.0


From db18815622783443d4c09203f10aa5bc9a01b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 20/89] fix: never release an object that the wrapper does not
 own, whatever the memory policy

---
 pybindgen/cppclass.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 00e4f8a..38c6322 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -183,7 +183,9 @@ class ReferenceCountingMethodsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    tmp->%s();\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        tmp->%s();\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_method))
         return delete_code
@@ -210,7 +212,9 @@ class ReferenceCountingFunctionsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_function))
         return delete_code
@@ -229,7 +233,9 @@ class FreeFunctionPolicy(MemoryPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.free_function))
         return delete_code
-- 
2.43.0


From c503ee52927c381819df1f3f3caa1424b5cf79ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 21/89] fix: use the peekref function of
 ReferenceCountingFunctionsPolicy in tp_traverse

---
 pybindgen/cppclass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 38c6322..cf0c596 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2484,10 +2484,12 @@ static void
         if self.helper_class is None:
             visit_self = ''
         else:
-            if not isinstance(self.memory_policy, ReferenceCountingMethodsPolicy) or self.memory_policy.peekref_method is None:
-                peekref_code = ''
-            else:
+            if isinstance(self.memory_policy, ReferenceCountingMethodsPolicy) and self.memory_policy.peekref_method is not None:
                 peekref_code = " && self->obj->%s() == 1" % self.memory_policy.peekref_method
+            elif isinstance(self.memory_policy, ReferenceCountingFunctionsPolicy) and self.memory_policy.peekref_function is not None:
+                peekref_code = " && %s(self->obj) == 1" % self.memory_policy.peekref_function
+            else:
+                peekref_code = ''
             visit_self = '''
     if (self->obj && typeid(*self->obj).name() == typeid(%s).name() %s)
         Py_VISIT((PyObject *) self);
-- 
2.43.0


From 1ececf431b15eb8e8c066e9fb90a336eb63c82ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 22/89] fix: keep track of who owns the instance when an
 existing wrapper is found for a returned or passed object

---
 pybindgen/cppclass.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index cf0c596..e83ea23 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2491,7 +2491,7 @@ static void
             else:
                 peekref_code = ''
             visit_self = '''
-    if (self->obj && typeid(*self->obj).name() == typeid(%s).name() %s)
+    if (self->obj && !(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED) && typeid(*self->obj).name() == typeid(%s).name() %s)
         Py_VISIT((PyObject *) self);
 ''' % (self.helper_class.name, peekref_code)
 
@@ -2671,6 +2671,20 @@ if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
             obj = self.memory_policy.get_pointer_to_void_name(obj)
         self.wrapper_registry.write_unregister_wrapper(code_block, wrapper, obj)
 
+    def write_recover_wrapper(self, code_block, wrapper, value, take_ownership):
+        """
+        Generates code to make the existing wrapper of a helper class
+        instance point to that instance (again).
+        """
+        if not isinstance(self.memory_policy, ReferenceCountingPolicy):
+            if take_ownership:
+                code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % wrapper)
+            else:
+                # ownership was transferred before, and that does not change
+                code_block.write_code("if (%s->obj == NULL)\n"
+                                      "    %s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (wrapper, wrapper))
+        code_block.write_code("%s->obj = %s;" % (wrapper, value))
+
     def write_allocate_pystruct(self, code_block, lvalue, wrapper_type=None):
         """
         Generates code to allocate a python wrapper structure, using
@@ -2841,6 +2855,11 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
                 cpp_class.memory_policy.write_decref(code_block, value_ptr)
                 code_block.unindent()
                 code_block.write_code("}")
+            elif caller_owns_return:
+                # ownership is given to the existing python wrapper
+                code_block.write_code("} else {\n"
+                                      "    %s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;\n"
+                                      "}" % py_name)
             else:
                 code_block.write_code("}")
     else:
@@ -2862,7 +2881,7 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
             % (py_name, cpp_class.pystruct,
                cpp_class.helper_class.name, const_cast_value))
 
-        code_block.write_code("%s->obj = %s;" % (py_name, const_cast_value))
+        cpp_class.write_recover_wrapper(code_block, py_name, const_cast_value, caller_owns_return)
 
         # We are already referencing the existing python wrapper,
         # so we do not need a reference to the C++ object as well.
@@ -2912,6 +2931,11 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
                 cpp_class.memory_policy.write_decref(code_block, value_ptr)
                 code_block.unindent()
                 code_block.write_code("}")
+            elif caller_owns_return:
+                # ownership is given to the existing python wrapper
+                code_block.write_code("} else {\n"
+                                      "    %s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;\n"
+                                      "}" % py_name)
             else:
                 code_block.write_code("}")
 
@@ -3654,14 +3678,15 @@ class CppClassPtrParameter(CppClassParameterBase):
                     "%s = (%s*) (((%s*) ((%s*) %s))->m_pyself);"
                     % (py_name, self.cpp_class.pystruct,
                        self.cpp_class.helper_class.name, self.cpp_class.full_name, value))
-                wrapper.before_call.write_code("%s->obj =  (%s*) (%s);" %
-                                               (py_name, self.cpp_class.full_name, value))
+                self.cpp_class.write_recover_wrapper(wrapper.before_call, py_name,
+                                                     "(%s*) (%s)" % (self.cpp_class.full_name, value),
+                                                     self.transfer_ownership)
             else:
                 wrapper.before_call.write_code(
                     "%s = (%s*) (((%s*) %s)->m_pyself);"
                     % (py_name, self.cpp_class.pystruct,
                        self.cpp_class.helper_class.name, value))
-                wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+                self.cpp_class.write_recover_wrapper(wrapper.before_call, py_name, value, self.transfer_ownership)
             wrapper.before_call.write_code("Py_INCREF(%s);" % py_name)
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("} else {")
-- 
2.43.0


From 37d149ceaf5f0c0cd86aeef5b36bc7f7496e9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 23/89] fix: let attribute setters and value converters raise
 their errors instead of printing them

---
 pybindgen/typehandlers/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index dc2b1dd..9166076 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -587,9 +587,12 @@ class ReverseWrapperBase(object):
             error_return = return_value.get_c_error_return()
         self.error_return = error_return
         self.declarations = DeclarationsScope()
-        self.before_call = ReverseCodeBlock(error_return, self.declarations)
-        self.after_call = ReverseCodeBlock(error_return, self.declarations,
-                                           predecessor=self.before_call)
+        # attribute setters and value converters have a Python caller,
+        # which receives the exception
+        block_class = CodeBlock if self.NO_GIL_LOCKING else ReverseCodeBlock
+        self.before_call = block_class(error_return, self.declarations)
+        self.after_call = block_class(error_return, self.declarations,
+                                      predecessor=self.before_call)
         self.build_params = BuildValueParameters()
         self.parse_params = ParseTupleParameters()
         self._generate_gil_code()
-- 
2.43.0


From 118d6e9f325f067e5a93f8f5ca5beeedcf2b1d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 24/89] fix: take the reference for a PyObject* parameter only
 after all parameters were accepted

---
 pybindgen/typehandlers/pyobjecttype.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/pyobjecttype.py b/pybindgen/typehandlers/pyobjecttype.py
index 16eb2d9..2112175 100644
--- a/pybindgen/typehandlers/pyobjecttype.py
+++ b/pybindgen/typehandlers/pyobjecttype.py
@@ -34,8 +34,14 @@ class PyObjectParam(Parameter):
         name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name)
         wrapper.parse_params.add_parameter('O', ['&'+name], self.name)
         wrapper.call_params.append(name)
+        self.py_name = name
+
+    def write_before_call(self, wrapper):
+        """See Parameter.write_before_call"""
+        # taking a reference for the callee only after all the
+        # parameters have been accepted, else nobody would release it
         if self.transfer_ownership:
-            wrapper.before_call.write_code("Py_INCREF((PyObject*) %s);" % name)
+            wrapper.before_call.write_code("Py_INCREF((PyObject*) %s);" % self.py_name)
 
 
 class PyObjectReturnValue(ReturnValue):
-- 
2.43.0


From 090d4939d0263ac49b75184ed1b73a5a945afb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 25/89] fix: do not leak the container of a container* out
 parameter when the call fails

---
 pybindgen/container.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 220469a..bcb05da 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -792,7 +792,8 @@ class ContainerPtrParameter(ContainerParameterBase):
 
         elif self.direction == Parameter.DIRECTION_OUT:
             container_tmp_var = wrapper.declarations.declare_variable(
-                self.container_type.full_name + '*', self.name + '_value', initializer="new %s" % self.container_type.full_name)
+                self.container_type.full_name + '*', self.name + '_value')
+            self.tmp_var = container_tmp_var
 
             wrapper.call_params.append(container_tmp_var)
 
@@ -803,13 +804,20 @@ class ContainerPtrParameter(ContainerParameterBase):
                 "%s = PyObject_New(%s, %s);" %
                 (py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
 
+            # from now on the container belongs to its python wrapper
             wrapper.after_call.write_code("%s->obj = %s;" % (py_name, container_tmp_var))
+            wrapper.after_call.write_code("%s = NULL;" % (container_tmp_var,))
 
             wrapper.build_params.add_parameter("N", [py_name])
 
         else:
             raise NotSupportedError("inout not supported for container*")
 
+    def write_before_call(self, wrapper):
+        """See Parameter.write_before_call"""
+        if self.direction == Parameter.DIRECTION_OUT:
+            wrapper.before_call.write_code("%s = new %s;" % (self.tmp_var, self.container_type.full_name))
+            wrapper.before_call.add_cleanup_code("delete %s;" % (self.tmp_var,))
 
     def convert_c_to_python(self, wrapper):
         '''Write some code before calling the Python method.'''
-- 
2.43.0


From 988699327fce41c7c3d8c92cb7bff86dbf1e6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 26/89] fix: do not leak the new object of a class reference
 out parameter when the call fails

---
 pybindgen/cppclass.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index e83ea23..8bc5326 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3218,22 +3218,8 @@ class CppClassRefParameter(CppClassParameterBase):
             self.py_name = wrapper.declarations.declare_variable(
                 self.cpp_class.pystruct+'*', self.name)
 
-            self.cpp_class.write_allocate_pystruct(wrapper.before_call, self.py_name)
-            if self.cpp_class.allow_subclassing:
-                wrapper.after_call.write_code(
-                    "%s->inst_dict = NULL;" % (self.py_name,))
-            wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
-
-            self.cpp_class.write_create_instance(wrapper.before_call,
-                                                 "%s->obj" % self.py_name,
-                                                 '')
-            self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                       "%s->obj" % self.py_name)
-            self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
-                                                             "%s->obj" % self.py_name,
-                                                             '')
             wrapper.call_params.append('*%s->obj' % (self.py_name,))
-            wrapper.build_params.add_parameter("N", [self.py_name])
+            wrapper.build_params.add_parameter("O", [self.py_name])
 
         ## well, personally I think inout here doesn't make much sense
         ## (it's just plain confusing), but might as well support it..
@@ -3252,6 +3238,27 @@ class CppClassRefParameter(CppClassParameterBase):
             wrapper.call_params.append(
                 '*%s->obj' % (self.py_name))
 
+    def write_before_call(self, wrapper):
+        """See Parameter.write_before_call"""
+        if self.direction != Parameter.DIRECTION_OUT:
+            return
+        # the new object is only created once all the parameters were
+        # accepted, and it goes away if the call fails
+        self.cpp_class.write_allocate_pystruct(wrapper.before_call, self.py_name)
+        if self.cpp_class.allow_subclassing:
+            wrapper.before_call.write_code(
+                "%s->inst_dict = NULL;" % (self.py_name,))
+        wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
+        self.cpp_class.write_create_instance(wrapper.before_call,
+                                             "%s->obj" % self.py_name,
+                                             '')
+        self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
+                                                                   "%s->obj" % self.py_name)
+        self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
+                                                         "%s->obj" % self.py_name,
+                                                         '')
+        wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
+
     def convert_c_to_python(self, wrapper):
         '''Write some code before calling the Python method.'''
         assert isinstance(wrapper, ReverseWrapperBase)
-- 
2.43.0


From afd82e2ca1aaf47bc7d43c14dd38ce152dd65b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 27/89] fix: check the real type of arguments, an object whose
 __class__ lies is not a wrapper

---
 pybindgen/container.py              |  4 ++--
 pybindgen/cppclass.py               | 14 +++++++-------
 pybindgen/typehandlers/smart_ptr.py |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index bcb05da..4b60de7 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -536,7 +536,7 @@ static PyObject*
             code_sink.writeln(r'''
 int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
 {
-    if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
+    if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         container->clear();
@@ -568,7 +568,7 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
             code_sink.writeln(r'''
 int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
 {
-    if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
+    if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         container->clear();
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 8bc5326..062cf64 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2604,7 +2604,7 @@ static void
         code_sink.indent()
 
         code_sink.writeln("""
-if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
+if (!PyObject_TypeCheck((PyObject*) other, &%s)) {
     Py_INCREF(Py_NotImplemented);
     return Py_NotImplemented;
 }""" % self.pytypestruct)
@@ -3066,7 +3066,7 @@ class CppClassParameter(CppClassParameterBase):
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name, optional=True)
 
                 if self.default_value is None:
-                    wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable,
@@ -3077,13 +3077,13 @@ class CppClassParameter(CppClassParameterBase):
                         "    %s = %s;" %
                         (self.py_name, tmp_value_variable, self.default_value))
                     wrapper.before_call.write_code(
-                        "} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                        "} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable,
                                                     self.cpp_class.pystruct, self.py_name))
                 for conversion_source in implicit_conversion_sources:
-                    wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, conversion_source.pytypestruct,
                                                     tmp_value_variable,
@@ -3191,13 +3191,13 @@ class CppClassRefParameter(CppClassParameterBase):
                         self.cpp_class.full_name, self.name)
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name)
 
-                    wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable,
                                                     self.cpp_class.pystruct, self.py_name))
                     for conversion_source in implicit_conversion_sources:
-                        wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                        wrapper.before_call.write_code("} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                        "    %s = *((%s *) %s)->obj;" %
                                                        (self.py_name, conversion_source.pytypestruct,
                                                         tmp_value_variable,
@@ -3525,7 +3525,7 @@ class CppClassPtrParameter(CppClassParameterBase):
 
                 wrapper.before_call.write_error_check(
 
-                    "%s && ((PyObject *) %s != Py_None) && !PyObject_IsInstance((PyObject *) %s, (PyObject *) &%s)"
+                    "%s && ((PyObject *) %s != Py_None) && !PyObject_TypeCheck((PyObject *) %s, &%s)"
                     % (self.py_name, self.py_name, self.py_name, self.cpp_class.pytypestruct),
 
                     'PyErr_SetString(PyExc_TypeError, "Parameter %i must be of type %s");' % (num, self.cpp_class.name))
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 2dc27a2..77cc8a7 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -182,7 +182,7 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.write_error_check(
 
-                "%s && ((PyObject *) %s != Py_None) && !PyObject_IsInstance((PyObject *) %s, (PyObject *) &%s)"
+                "%s && ((PyObject *) %s != Py_None) && !PyObject_TypeCheck((PyObject *) %s, &%s)"
                 % (self.py_name, self.py_name, self.py_name, self.cpp_class.pytypestruct),
 
                 'PyErr_SetString(PyExc_TypeError, "Parameter %i must be of type %s");' % (num, self.cpp_class.name))
-- 
2.43.0


From ba18339a8cbe61fdd60d27d16a5f2c620650186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 28/89] fix: convert a list to a container completely before
 modifying anything, and keep its items alive meanwhile

---
 pybindgen/container.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 4b60de7..28e2849 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -539,15 +539,19 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
     if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
-        container->clear();
-        Py_ssize_t size = PyList_Size(arg);
-        for (Py_ssize_t i = 0; i < size; i++) {
+        %(CTYPE)s tmp_container; // the result is only touched when all the items are good
+        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(arg); i++) {
+            PyObject *py_item = PyList_GET_ITEM(arg, i);
             %(ITEM_CTYPE)s item;
-            if (!%(ITEM_CONVERTER)s(PyList_GET_ITEM(arg, i), &item)) {
+            Py_INCREF(py_item); // converting an item may run code that modifies the list
+            if (!%(ITEM_CONVERTER)s(py_item, &item)) {
+                Py_DECREF(py_item);
                 return 0;
             }
-            container->%(ADD_VALUE)s(item);
+            Py_DECREF(py_item);
+            tmp_container.%(ADD_VALUE)s(item);
         }
+        *container = tmp_container;
     } else {
         PyErr_SetString(PyExc_TypeError, "parameter must be None, a %(PYTHON_NAME)s instance, or a list of %(ITEM_CTYPE)s");
         return 0;
@@ -571,23 +575,24 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
     if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
-        container->clear();
-        Py_ssize_t size = PyList_Size(arg);
-        for (Py_ssize_t i = 0; i < size; i++) {
+        %(CTYPE)s tmp_container; // the result is only touched when all the items are good
+        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(arg); i++) {
             PyObject *tup = PyList_GET_ITEM(arg, i);
             if (!PyTuple_Check(tup) || PyTuple_Size(tup) != 2) {
                 PyErr_SetString(PyExc_TypeError, "items must be tuples with two elements");
                 return 0;
             }
             std::pair< %(KEY_CTYPE)s, %(ITEM_CTYPE)s > item;
-            if (!%(KEY_CONVERTER)s(PyTuple_GET_ITEM(tup, 0), &item.first)) {
+            Py_INCREF(tup); // converting an item may run code that modifies the list
+            if (!%(KEY_CONVERTER)s(PyTuple_GET_ITEM(tup, 0), &item.first)
+                || !%(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second)) {
+                Py_DECREF(tup);
                 return 0;
             }
-            if (!%(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second)) {
-                return 0;
-            }
-            container->%(ADD_VALUE)s(item);
+            Py_DECREF(tup);
+            tmp_container.%(ADD_VALUE)s(item);
         }
+        *container = tmp_container;
     } else {
         PyErr_SetString(PyExc_TypeError, "parameter must be None, a %(PYTHON_NAME)s instance, or a list of %(ITEM_CTYPE)s");
         return 0;
-- 
2.43.0


From a2b4a3b6ee3c1f51bd71b76d9cd4505e9c5d9a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 29/89] fix: deleting a C++ attribute raises TypeError instead
 of crashing

---
 pybindgen/cppattribute.py       | 7 +++++++
 pybindgen/cppcustomattribute.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index f2c0006..1eecb43 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -36,6 +36,11 @@ class PySetter(ReverseWrapperBase):
     def generate_python_call(self):
         """(not actually called)"""
         raise AssertionError
+    def write_check_not_deleted(self):
+        """C++ attributes cannot be deleted: the setter is then called with a NULL value"""
+        self.before_call.write_error_check(
+            'value == NULL',
+            'PyErr_SetString(PyExc_TypeError, "C++ attributes cannot be deleted");')
 
 
 class CppInstanceAttributeGetter(PyGetter):
@@ -144,6 +149,7 @@ class CppInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.write_check_not_deleted()
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
@@ -218,6 +224,7 @@ class CppStaticAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.write_check_not_deleted()
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index a504551..fa98994 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -75,6 +75,7 @@ class CppCustomInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.write_check_not_deleted()
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
-- 
2.43.0


From af699993c1fd5f012d10162ef55184b899bcf007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 30/89] fix: setting attributes of Python subclasses of a class
 with static attributes left stale type caches (crash)

---
 pybindgen/cppattribute.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 1eecb43..13e7595 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -284,6 +284,18 @@ class PyMetaclass(object):
         Generate the metaclass to code_sink and register it in the module.
         """
         code_sink.writeln('''
+static int
+_wrap_%(pytypestruct)s__tp_setattro(PyObject *self, PyObject *name, PyObject *value)
+{
+    /* PyType tp_setattro is too restrictive for the wrapped classes themselves,
+       but Python subclasses need all that it does */
+    if (((PyTypeObject *) self)->tp_flags & Py_TPFLAGS_HEAPTYPE)
+        return PyType_Type.tp_setattro(self, name, value);
+    int retval = PyObject_GenericSetAttr(self, name, value);
+    PyType_Modified((PyTypeObject *) self);
+    return retval;
+}
+
 PyTypeObject %(pytypestruct)s = {
         PyVarObject_HEAD_INIT(NULL, 0)
 	(char *) "%(name)s",		        /* tp_name */
@@ -302,7 +314,7 @@ PyTypeObject %(pytypestruct)s = {
 	0,					/* tp_call */
 	0,					/* tp_str */
 	0,					/* tp_getattro */
-	0,					/* tp_setattro */
+	(setattrofunc) _wrap_%(pytypestruct)s__tp_setattro,	/* tp_setattro */
 	0,					/* tp_as_buffer */
 	Py_TPFLAGS_DEFAULT|Py_TPFLAGS_HAVE_GC|Py_TPFLAGS_BASETYPE, /* tp_flags */
  	0,					/* tp_doc */
@@ -341,8 +353,6 @@ PyTypeObject %(pytypestruct)s = {
 %(pytypestruct)s.tp_traverse = %(parent_metaclass)s->tp_traverse;
 %(pytypestruct)s.tp_clear = %(parent_metaclass)s->tp_clear;
 %(pytypestruct)s.tp_is_gc = %(parent_metaclass)s->tp_is_gc;
-/* PyType tp_setattro is too restrictive */
-%(pytypestruct)s.tp_setattro = PyObject_GenericSetAttr;
 PyType_Ready(&%(pytypestruct)s);
 """ % dict(pytypestruct=self.pytypestruct, parent_metaclass=self.parent_metaclass_expr))
         
-- 
2.43.0


From 5fbe300f36148b75fe768f864d5deb7079b8eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 31/89] fix: enums stored in a type other than int were parsed
 through an int pointer

---
 pybindgen/enum.py | 87 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 83 insertions(+), 4 deletions(-)

diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index 960da58..e10519a 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -14,6 +14,85 @@ from pybindgen.typehandlers import inttype
 from pybindgen.typehandlers.base import return_type_matcher, param_type_matcher
 from pybindgen.cppclass import CppClass
 
+# An enum may be stored in any integer type, so it is never parsed into
+# directly: the value goes through a PY_LONG_LONG, and has to fit the enum.
+
+def _write_assign(wrapper, code_block, param_name, lvalue, ctype, prepend=False):
+    """parse a Python integer and assign it to an lvalue of an enum type"""
+    tmp = wrapper.declarations.declare_variable('PY_LONG_LONG', (param_name or 'retval') + '_tmp')
+    wrapper.parse_params.add_parameter('L', ['&'+tmp], param_name, prepend=prepend)
+    _write_range_check(code_block, ctype, tmp)
+    code_block.write_code('%s = (%s) %s;' % (lvalue, ctype, tmp))
+
+def _write_range_check(code_block, ctype, value):
+    code_block.write_error_check('(PY_LONG_LONG) (%s) %s != %s' % (ctype, value, value),
+                                 'PyErr_SetString(PyExc_OverflowError, "Out of range");')
+
+class EnumParam(inttype.IntParam):
+    CTYPES = []
+
+    def convert_c_to_python(self, wrapper):
+        wrapper.build_params.add_parameter('L', ['(PY_LONG_LONG) (%s)' % self.value])
+
+    def convert_python_to_c(self, wrapper):
+        default = self.default_value and '(PY_LONG_LONG) (%s)' % self.default_value
+        name = wrapper.declarations.declare_variable('PY_LONG_LONG', self.name, default)
+        wrapper.parse_params.add_parameter('L', ['&'+name], self.name, optional=bool(self.default_value))
+        _write_range_check(wrapper.before_call, self.ctype_no_const, name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
+
+
+class EnumReturn(inttype.IntReturn):
+    CTYPES = []
+
+    def get_c_error_return(self):
+        return "return (%s) 0;" % self.ctype
+
+    def convert_python_to_c(self, wrapper):
+        _write_assign(wrapper, wrapper.after_call, None, self.value, self.ctype, prepend=True)
+
+    def convert_c_to_python(self, wrapper):
+        wrapper.build_params.add_parameter('L', ['(PY_LONG_LONG) (%s)' % self.value], prepend=True)
+
+
+class EnumRefParam(inttype.IntRefParam):
+    CTYPES = []
+
+    def convert_c_to_python(self, wrapper):
+        if self.direction & self.DIRECTION_IN:
+            wrapper.build_params.add_parameter('L', ['(PY_LONG_LONG) (%s)' % self.value])
+        if self.direction & self.DIRECTION_OUT:
+            _write_assign(wrapper, wrapper.after_call, self.name, self.value, self.ctype_no_const[:-1])
+
+    def convert_python_to_c(self, wrapper):
+        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        wrapper.call_params.append(name)
+        if self.direction & self.DIRECTION_IN:
+            _write_assign(wrapper, wrapper.before_call, self.name, name, self.ctype_no_const[:-1])
+        if self.direction & self.DIRECTION_OUT:
+            wrapper.build_params.add_parameter('L', ['(PY_LONG_LONG) ' + name])
+
+
+class EnumPtrParam(inttype.IntPtrParam):
+    CTYPES = []
+
+    def convert_c_to_python(self, wrapper):
+        if self.direction & self.DIRECTION_IN:
+            wrapper.build_params.add_parameter('L', ['(PY_LONG_LONG) *' + self.value])
+        if self.direction & self.DIRECTION_OUT:
+            _write_assign(wrapper, wrapper.after_call, self.name, '*'+self.value, self.ctype_no_const[:-1])
+
+    def convert_python_to_c(self, wrapper):
+        if self.default_value in ['NULL', '0']:
+            return super(EnumPtrParam, self).convert_python_to_c(wrapper)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        wrapper.call_params.append('&'+name)
+        if self.direction & self.DIRECTION_IN:
+            _write_assign(wrapper, wrapper.before_call, self.name, name, self.ctype_no_const[:-1])
+        if self.direction & self.DIRECTION_OUT:
+            wrapper.build_params.add_parameter('L', ['(PY_LONG_LONG) ' + name])
+
+
 class Enum(object):
     """
     Class that adds support for a C/C++ enum type
@@ -81,25 +160,25 @@ class Enum(object):
         ## Register type handlers for the enum type
         assert self.name
         assert self.full_name
-        class ThisEnumParameter(inttype.IntParam):
+        class ThisEnumParameter(EnumParam):
             CTYPES = []
             full_type_name = self.full_name
             def __init__(self, ctype, name, *args, **kwargs):
                 super(ThisEnumParameter, self).__init__(self.full_type_name, name, *args, **kwargs)
 
-        class ThisEnumReturn(inttype.IntReturn):
+        class ThisEnumReturn(EnumReturn):
             CTYPES = []
             full_type_name = self.full_name
             def __init__(self, ctype, *args, **kwargs):
                 super(ThisEnumReturn, self).__init__(self.full_type_name, *args, **kwargs)
 
-        class ThisEnumRefParameter(inttype.IntRefParam):
+        class ThisEnumRefParameter(EnumRefParam):
             CTYPES = []
             full_type_name = self.full_name + " &"
             def __init__(self, ctype, name, *args, **kwargs):
                 super(ThisEnumRefParameter, self).__init__(self.full_type_name, name, *args, **kwargs)
 
-        class ThisEnumPtrParameter(inttype.IntPtrParam):
+        class ThisEnumPtrParameter(EnumPtrParam):
             CTYPES = []
             full_type_name = self.full_name + " *"
             def __init__(self, ctype, name, *args, **kwargs):
-- 
2.43.0


From 0ef3b003d21fcd6c6741ed116872f11e3db74a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 32/89] fix: the getter of an attribute was called twice for a
 std::string

---
 pybindgen/cppattribute.py       | 17 +++++++++++++++--
 pybindgen/cppcustomattribute.py |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 13e7595..03de4e8 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -13,7 +13,7 @@ else:
 
 
 from pybindgen.typehandlers.base import ForwardWrapperBase, ReverseWrapperBase
-from pybindgen.typehandlers import codesink
+from pybindgen.typehandlers import codesink, ctypeparser
 from pybindgen import settings
 from pybindgen import utils
 
@@ -26,6 +26,18 @@ class PyGetter(ForwardWrapperBase):
     def generate_call(self):
         """(not actually called)"""
         raise AssertionError
+    def write_call_getter(self):
+        """
+        When the value comes from a call (of a getter method or
+        function), make that call once, whatever number of times the
+        type handler mentions the value.
+        """
+        if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR or self.return_value.NO_RETVAL_DECL:
+            return
+        traits = ctypeparser.TypeTraits(str(self.return_value.type_traits.ctype_no_const_no_ref))
+        retval = self.declarations.declare_variable(str(traits.ctype_no_const_no_ref), 'retval')
+        self.before_call.write_code("%s = %s;" % (retval, self.return_value.value))
+        self.return_value.value = retval
 
 class PySetter(ReverseWrapperBase):
     """generates a setter, for use in a PyGetSetDef table"""
@@ -68,7 +80,8 @@ class CppInstanceAttributeGetter(PyGetter):
 
     def generate_call(self):
         "virtual method implementation; do not call"
-        pass
+        if self.getter is not None:
+            self.write_call_getter()
 
     def generate(self, code_sink):
         """
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index fa98994..67d86a7 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -32,7 +32,7 @@ class CppCustomInstanceAttributeGetter(PyGetter):
 
     def generate_call(self):
         "virtual method implementation; do not call"
-        pass
+        self.write_call_getter()
 
     def generate(self, code_sink):
         """
-- 
2.43.0


From 565fca3692dcb473b7719848114734c0c8b04c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 33/89] fix: honour values_prefix of enums in classes and
 cpp_namespace of enum types

---
 pybindgen/enum.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index e10519a..f88c416 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -127,7 +127,7 @@ class Enum(object):
         self.name = name
         self.full_name = None
         self.values = list(values)
-        self.values_prefix = values_prefix
+        self.values_prefix = values_prefix or ''
         self.cpp_namespace = cpp_namespace
         self._module = None
         self.ThisEnumParameter = None
@@ -147,13 +147,16 @@ class Enum(object):
             return
 
         if self.outer_class is None:
+            name = self.name
+            if self.cpp_namespace:
+                name = self.cpp_namespace + '::' + name
             if self._module.cpp_namespace_prefix:
                 if self._module.cpp_namespace_prefix == '::':
-                    self.full_name = '::' + self.name
+                    self.full_name = '::' + name
                 else:
-                    self.full_name = self._module.cpp_namespace_prefix + '::' + self.name
+                    self.full_name = self._module.cpp_namespace_prefix + '::' + name
             else:
-                self.full_name = self.name
+                self.full_name = name
         else:
             self.full_name = '::'.join([self.outer_class.full_name, self.name])
 
@@ -244,7 +247,7 @@ class Enum(object):
                     value_name, value_str = value
                 else:
                     value_name = value
-                    value_str = "%s::%s" % (self.outer_class.full_name, value)
+                    value_str = "%s::%s" % (self.outer_class.full_name, self.values_prefix + value)
                 module.after_init.write_code(
                     ' // %s\n'
                     'tmp_value = PyLong_FromLong(%s);\n'
-- 
2.43.0


From 6f29fdb4a97119b083de38842eacb5825bd1ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 34/89] fix: indices of sequence methods were truncated to a C
 int

---
 pybindgen/pytypeobject.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index e045cd2..6e8512c 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -354,7 +354,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
@@ -370,7 +370,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (PyErr_ExceptionMatches(PyExc_IndexError) ||
@@ -394,7 +394,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(ii)", py_i1, py_i2);
+    args = Py_BuildValue("(nn)", py_i1, py_i2);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (PyErr_ExceptionMatches(PyExc_IndexError) ||
@@ -416,7 +416,7 @@ static int
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(iO)", py_i, py_val);
+    args = Py_BuildValue("(nO)", py_i, py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
@@ -451,7 +451,7 @@ static int
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(iiO)", py_i1, py_i2, py_vals);
+    args = Py_BuildValue("(nnO)", py_i1, py_i2, py_vals);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
@@ -525,7 +525,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
-- 
2.43.0


From 3d80a4e1f40e87cc0e3d441ae2d45420a598ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 35/89] fix: unary operators of classes without other numeric
 operators were not wrapped

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 062cf64..177a1d5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2032,7 +2032,7 @@ typedef struct {
         if self.slots.get("tp_richcompare", "NULL") == "NULL" and self.binary_comparison_operators:
             self.slots["tp_richcompare"] = self._generate_tp_richcompare(code_sink)
 
-        if self.binary_numeric_operators or self.inplace_numeric_operators:
+        if self.binary_numeric_operators or self.inplace_numeric_operators or self.unary_numeric_operators:
             self.slots["tp_as_number"] = self._generate_number_methods(code_sink)
 
         if self.have_sequence_methods():
-- 
2.43.0


From a929086624d712ebc689eeb28d7010d3289c5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 36/89] fix: deleting an item of an object with __setitem__
 crashed

---
 pybindgen/pytypeobject.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index 6e8512c..c4e49da 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -416,6 +416,10 @@ static int
     PyObject *result;
     PyObject *args;
 
+    if (py_val == NULL) {
+        PyErr_SetString(PyExc_TypeError, "items cannot be deleted");
+        return -1;
+    }
     args = Py_BuildValue("(nO)", py_i, py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
@@ -451,6 +455,10 @@ static int
     PyObject *result;
     PyObject *args;
 
+    if (py_vals == NULL) {
+        PyErr_SetString(PyExc_TypeError, "slices cannot be deleted");
+        return -1;
+    }
     args = Py_BuildValue("(nnO)", py_i1, py_i2, py_vals);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
-- 
2.43.0


From c1bfc4f18b2a87c521cfdcb5be11e232245319ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 37/89] fix: results and exceptions of __len__, __setitem__ and
 __contains__ methods were lost

---
 pybindgen/pytypeobject.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index c4e49da..38cf796 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -293,8 +293,8 @@ static Py_ssize_t
 
     py_result = %(method_name)s(py_self, NULL, NULL);
     if (py_result == NULL) {
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
-        Py_XDECREF(py_result);
+        if (!PyErr_Occurred())
+            PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
         return -1;
     }
     result = PyLong_AsSsize_t(py_result);
@@ -319,8 +319,8 @@ static Py_ssize_t
     py_result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (py_result == NULL) {
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
-        Py_XDECREF(py_result);
+        if (!PyErr_Occurred())
+            PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
         return -1;
     }
     result = PyLong_AsSsize_t(py_result);
@@ -424,7 +424,8 @@ static int
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
-        PyErr_SetString(PyExc_IndexError, "Unknown error trying to set value in container.");
+        if (!PyErr_Occurred())
+            PyErr_SetString(PyExc_IndexError, "Unknown error trying to set value in container.");
         return -1;
 #if PY_MAJOR_VERSION >= 3
     } else if (PyLong_Check(result) == 0) {
@@ -432,6 +433,7 @@ static int
     } else if (PyInt_Check(result) == 0) {
 #endif
         PyErr_SetString(PyExc_IndexError, "Error trying to set value in container -- wrapped method should return integer status.");
+        Py_DECREF(result);
         return -1;
     } else {
 #if PY_MAJOR_VERSION >= 3
@@ -440,7 +442,13 @@ static int
         int iresult = int(PyInt_AS_LONG(result));
 #endif
         Py_DECREF(result);
-        return iresult;
+        if (PyErr_Occurred())
+            return -1;
+        if (iresult < 0) {
+            PyErr_SetString(PyExc_IndexError, "Error trying to set value in container.");
+            return -1;
+        }
+        return 0;
     }
 }
 
@@ -493,7 +501,8 @@ static int
 #else
     if (result == NULL || PyInt_Check(result) == 0) {
 #endif
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to test __contains__.");
+        if (!PyErr_Occurred())
+            PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to test __contains__.");
         Py_XDECREF(result);
         return -1;
     } else {
@@ -503,7 +512,9 @@ static int
         int iresult = int(PyInt_AS_LONG(result));
 #endif
         Py_DECREF(result);
-        return iresult;
+        if (PyErr_Occurred())
+            return -1;
+        return iresult != 0;
     }
 }
 
-- 
2.43.0


From db1f47cd73f4dfb8460dce921d3d17132ef8c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 38/89] fix: __copy__ did not compile for classes managed by
 smart pointers

---
 pybindgen/cppclass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 177a1d5..df6764f 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2295,7 +2295,7 @@ typedef struct {
         return have_constructor
 
     def _generate_copy_method(self, code_sink):
-        construct_name = self.get_construct_name()
+        self.get_construct_name() # raises an exception if the class cannot be constructed
         copy_wrapper_name = '_wrap_%s__copy__' % self.pystruct
         code_sink.writeln('''
 static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
@@ -2308,7 +2308,8 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
         py_copy = declarations.declare_variable("%s*" % self.pystruct, "py_copy")
         self.write_allocate_pystruct(code_block, py_copy)
-        code_block.write_code("%s->obj = new %s(*self->obj);" % (py_copy, construct_name))
+        self.write_create_instance(code_block, "%s->obj" % py_copy, "*self->obj")
+        self.write_post_instance_creation_code(code_block, "%s->obj" % py_copy, "*self->obj")
         if self.allow_subclassing:
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
-- 
2.43.0


From c913c96f603194b13924986b0a075e4a4f17ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 39/89] fix: str() of an object was cut at the first NUL
 character

---
 pybindgen/cppclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index df6764f..d8969d1 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2519,7 +2519,8 @@ static PyObject *
 {
     std::ostringstream oss;
     oss << *self->obj;
-    return PyUnicode_FromString(oss.str ().c_str ());
+    std::string str = oss.str ();
+    return PyUnicode_FromStringAndSize(str.data (), str.size ());
 }
 
 ''' % (tp_str_function_name, self.pystruct))
-- 
2.43.0


From e85f43f7f5b161437737ee06f47441539e2266a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 40/89] fix: wrapper flags of a subclassable class were at
 another place than those of its non-subclassable parent

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d8969d1..33b038e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1831,8 +1831,8 @@ public:
 typedef struct {
     PyObject_HEAD
     %sobj;
-    PyObject *inst_dict;
     PyBindGenWrapperFlags flags:8;
+    PyObject *inst_dict;
 } %s;
     ''' % (pointer_type, self.pystruct))
 
-- 
2.43.0


From 558f8fd413af59b0abdbb98c3f41e05be77e59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 41/89] fix: the garbage collector destroyed the smart pointer
 of a wrapper twice

---
 pybindgen/cppclass.py               | 17 ++++++++++++++++-
 pybindgen/typehandlers/smart_ptr.py |  3 +++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 33b038e..5fde177 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -110,6 +110,14 @@ class MemoryPolicy(object):
     def get_delete_code(self, cpp_class):
         raise NotImplementedError
 
+    def get_clear_code(self, cpp_class):
+        """
+        Return code to release the underlying C/C++ object of a wrapper
+        that continues to exist; unlike the delete code, it may be run
+        more than once.
+        """
+        return self.get_delete_code(cpp_class)
+
     def get_pystruct_init_code(self, cpp_class, obj):
         return ''
 
@@ -2457,6 +2465,11 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
                     delete_code = ("    self->obj = NULL;\n")
         return delete_code
 
+    def _get_clear_code(self):
+        if self.is_singleton or self.memory_policy is None:
+            return self._get_delete_code()
+        return self.memory_policy.get_clear_code(self)
+
     def _generate_gc_methods(self, code_sink):
         """Generate tp_clear and tp_traverse"""
 
@@ -2467,7 +2480,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         code_block.write_code("Py_CLEAR(self->inst_dict);")
         # the C++ object may be gone after this, yet the wrapper may still exist for a while
         self.write_unregister_wrapper(code_block, 'self')
-        code_block.write_code(self._get_delete_code())
+        code_block.write_code(self._get_clear_code())
         code_sink.writeln(r'''
 static void
 %s(%s *self)
@@ -2581,6 +2594,8 @@ static void
 
         if self.allow_subclassing:
             code_block.write_code("%s(self);" % self.slots["tp_clear"])
+            if self._get_clear_code() != self._get_delete_code():
+                code_block.write_code(self._get_delete_code())
         else:
             code_block.write_code(self._get_delete_code())
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 77cc8a7..c2778d6 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -26,6 +26,9 @@ class BoostSharedPtr(SmartPointerPolicy):
     def get_delete_code(self, cpp_class):
         return "self->obj.~shared_ptr< %s >();" % (cpp_class.full_name,)
 
+    def get_clear_code(self, cpp_class):
+        return "self->obj.reset();"
+
     def get_pointer_type(self, class_full_name):
         return self.get_pointer_name(class_full_name) + ' '
 
-- 
2.43.0


From 50b379eeb5b33f97bc266bf992ac813464d9af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 42/89] fix: untrack wrappers before deallocating them, garbage
 collection meanwhile crashed

---
 pybindgen/cppclass.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 5fde177..9b6bf70 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2590,6 +2590,10 @@ static void
 
         code_block = CodeBlock("PyErr_Print(); return;", DeclarationsScope())
 
+        if self.allow_subclassing:
+            # the garbage collector may run while the object is being taken apart
+            code_block.write_code("PyObject_GC_UnTrack((PyObject *) self);")
+
         self.write_unregister_wrapper(code_block, 'self')
 
         if self.allow_subclassing:
-- 
2.43.0


From 01ab61f05972401db6d5fea5e6d2d9683ef5838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 43/89] fix: wrappers created for C++ objects were not tracked
 by the garbage collector

---
 pybindgen/cppclass.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9b6bf70..43a04eb 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2709,17 +2709,14 @@ if (!PyObject_TypeCheck((PyObject*) other, &%s)) {
     def write_allocate_pystruct(self, code_block, lvalue, wrapper_type=None):
         """
         Generates code to allocate a python wrapper structure, using
-        PyObject_New or PyObject_GC_New, plus some additional strcture
+        the tp_alloc slot of the type (so that it is tracked by the garbage
+        collector if the type supports it), plus some additional strcture
         initialization that may be needed.
         """
-        if self.allow_subclassing:
-            new_func = 'PyObject_GC_New'
-        else:
-            new_func = 'PyObject_New'
         if wrapper_type is None:
             wrapper_type = '&'+self.pytypestruct
-        code_block.write_code("%s = %s(%s, %s);" %
-                              (lvalue, new_func, self.pystruct, wrapper_type))
+        code_block.write_code("%s = (%s*) (%s)->tp_alloc(%s, 0);" %
+                              (lvalue, self.pystruct, wrapper_type, wrapper_type))
         if self.allow_subclassing:
             code_block.write_code(
                 "%s->inst_dict = NULL;" % (lvalue,))
-- 
2.43.0


From d83ada8d09af1bebfa93395b61e15fa440811777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 44/89] fix: container iterators were not tracked by the
 garbage collector

---
 pybindgen/container.py          | 2 ++
 pybindgen/cppclass_container.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 28e2849..c61fe1e 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -453,6 +453,7 @@ static void
 static void
 %s(%s *self)
 {
+    PyObject_GC_UnTrack((PyObject *) self);
     Py_CLEAR(self->container);
     %s
     Py_TYPE(self)->tp_free((PyObject*)self);
@@ -483,6 +484,7 @@ static PyObject*
     Py_INCREF(self);
     iter->container = self;
     iter->iterator = new %(CTYPE)s::iterator(self->obj->begin());
+    PyObject_GC_Track((PyObject *) iter);
     return (PyObject*) iter;
 }
 ''' % subst_vars)
diff --git a/pybindgen/cppclass_container.py b/pybindgen/cppclass_container.py
index 7c22320..3274942 100644
--- a/pybindgen/cppclass_container.py
+++ b/pybindgen/cppclass_container.py
@@ -210,6 +210,7 @@ static int
 static void
 %s(%s *self)
 {
+    PyObject_GC_UnTrack((PyObject *) self);
     Py_CLEAR(self->container);
     %s
     Py_TYPE(self)->tp_free((PyObject*)self);
@@ -242,6 +243,7 @@ static PyObject*
     Py_INCREF(self);
     iter->container = self;
     iter->iterator = new %(CTYPE)s::%(ITERATOR_TYPE)s(self->obj->%(BEGIN_METHOD)s());
+    PyObject_GC_Track((PyObject *) iter);
     return (PyObject*) iter;
 }
 ''' % subst_vars)
-- 
2.43.0


From 7e97004905aa1bd5efa8e926013f59cac587e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 45/89] fix: __copy__ of classes managed by smart pointers did
 not compile with a wrapper registry

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 43a04eb..93aa95b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2322,7 +2322,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
 
-        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, "%s->obj" % py_copy)
+        self.write_register_wrapper(code_block, py_copy)
 
         code_block.write_code("return (PyObject*) %s;" % py_copy)
 
-- 
2.43.0


From 6fe9f667f3c99c321c3ae1a7da1706c500ea15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 46/89] fix: calling a parent implementation from an override
 of an inherited virtual method recursed endlessly

---
 pybindgen/cppclass.py  | 13 ++++++++++++-
 pybindgen/cppmethod.py |  9 +++++----
 pybindgen/utils.py     |  6 ++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 93aa95b..cab6049 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -387,7 +387,7 @@ class CppHelperClass(object):
         Returns True if all is well, False if a pure virtual method
         was found that could not be generated.
         """
-        code_sink.writeln("class %s : public %s\n{\npublic:" %
+        code_sink.writeln("class %s : public %s, public PyBindGenPythonHelperBase\n{\npublic:" %
                           (self.name, self.class_.full_name))
 
         code_sink.indent()
@@ -703,6 +703,9 @@ class CppClass(object):
             self.bases = []
         else:
             raise TypeError("'parent' must be None, CppClass instance, or a list of CppClass instances")
+        self.derived_classes = []
+        for base in self.bases:
+            base.derived_classes.append(self)
 
         if free_function:
             warnings.warn("Use FreeFunctionPolicy and memory_policy parameter.", DeprecationWarning)
@@ -1812,6 +1815,14 @@ public:
                 method = method.clone()
                 self.helper_class.add_virtual_method(method)
 
+    def may_have_helper_instances(self):
+        """
+        True if instances of this class may be of a helper class, its
+        own or that of a derived class.
+        """
+        return self.helper_class is not None \
+            or any(cls.may_have_helper_instances() for cls in self.derived_classes)
+
     def _get_wrapper_registry(self):
         # there is one wrapper registry object per root class only,
         # which is used for all subclasses.
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 5c5a925..f497d00 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -256,12 +256,13 @@ class CppMethod(ForwardWrapperBase):
             else:
                 retval_assign = 'retval = '
 
-        if class_.helper_class is not None and self.is_virtual and not self.is_pure_virtual\
+        if class_.may_have_helper_instances() and self.is_virtual and not self.is_pure_virtual\
                 and not settings._get_deprecated_virtuals():
-            helper = self.before_call.declare_variable(type_="%s *" % class_.helper_class.name,
+            # not only the helper class of this class: the object may be of a
+            # Python subclass of a derived class that inherits this method
+            helper = self.before_call.declare_variable(type_="PyBindGenPythonHelperBase *",
                                                        name="helper_class",
-                                                       initializer=(
-                    "dynamic_cast<%s*> (self->obj)" % class_.helper_class.name))
+                                                       initializer="dynamic_cast<PyBindGenPythonHelperBase*> (self->obj)")
         else:
             helper = None
 
diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index af04804..9b9447a 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -141,6 +141,12 @@ typedef enum _PyBindGenWrapperFlags {
 } PyBindGenWrapperFlags;
 #endif
 
+#if defined(__cplusplus) && !defined(_PyBindGenPythonHelperBase_defined_)
+#define _PyBindGenPythonHelperBase_defined_
+/* common base of all helper classes: marks instances whose virtual methods call into Python */
+struct PyBindGenPythonHelperBase {};
+#endif
+
 #if PY_VERSION_HEX >= 0x03070000 && !defined(PyEval_ThreadsInitialized)
 #define PyEval_ThreadsInitialized() 1
 #endif
-- 
2.43.0


From 395d9bb3779ba10c3a993debd79a7f942edca6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 47/89] fix: Python overrides of inherited virtual methods were
 ignored in classes without virtual methods of their own

---
 pybindgen/cppclass.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index cab6049..6c50951 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1823,6 +1823,22 @@ public:
         return self.helper_class is not None \
             or any(cls.may_have_helper_instances() for cls in self.derived_classes)
 
+    def _create_helper_class_for_inherited_virtuals(self):
+        """
+        A class without virtual methods of its own also needs a helper
+        class, for the virtual methods it inherits to be overridable.
+        """
+        if self.import_from_module or self.destructor_visibility == 'private' \
+                or isinstance(self.memory_policy, SmartPointerPolicy):
+            return
+        mro = self.get_mro()
+        next(mro) # skip 'self'
+        for cls in mro:
+            for method in cls.get_all_methods():
+                if method.is_virtual:
+                    self.get_helper_class()
+                    return
+
     def _get_wrapper_registry(self):
         # there is one wrapper registry object per root class only,
         # which is used for all subclasses.
@@ -1877,6 +1893,8 @@ typedef struct {
 
         code_sink.writeln()
 
+        if self.helper_class is None:
+            self._create_helper_class_for_inherited_virtuals()
         if self.helper_class is not None:
             self._inherit_helper_class_parent_virtuals()
             for hook in self._get_all_helper_class_hooks():
-- 
2.43.0


From d8d8c78c67c7456e94588a6695f7f7750ed1d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 48/89] fix: declared exceptions of inherited and of protected
 virtual methods were not translated

---
 pybindgen/cppmethod.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index f497d00..0196e57 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -220,7 +220,10 @@ class CppMethod(ForwardWrapperBase):
                          is_pure_virtual=self.is_pure_virtual,
                          is_const=self.is_const,
                          visibility=self.visibility,
-                         custom_name=self.custom_name)
+                         custom_name=self.custom_name,
+                         unblock_threads=self.unblock_threads,
+                         deprecated=self.deprecated,
+                         throw=self.throw)
         meth._class = self._class
         meth.docstring = self.docstring
         meth.wrapper_base_name = self.wrapper_base_name
@@ -271,9 +274,7 @@ class CppMethod(ForwardWrapperBase):
         else:
             method = 'self->obj->%s%s' % (self.method_name, template_params)
 
-        if self.throw:
-            self.before_call.write_code('try\n{')
-            self.before_call.indent()
+        self._write_open_try()
 
         if self.is_static:
             self.before_call.write_code(retval_assign + (
@@ -297,6 +298,16 @@ class CppMethod(ForwardWrapperBase):
                            ", ".join(self.call_params)
                            )))
 
+        self._write_close_try()
+
+    def _write_open_try(self):
+        "opens the try block that catches the declared exceptions, if any"
+        if self.throw:
+            self.before_call.write_code('try\n{')
+            self.before_call.indent()
+
+    def _write_close_try(self):
+        "catches the declared exceptions, if any"
         if self.throw:
             for exc in self.throw:
                 self.before_call.unindent()
@@ -887,7 +898,9 @@ class CppVirtualMethodParentCaller(CppMethod):
 
     def __init__(self, method, unblock_threads=None):
         super(CppVirtualMethodParentCaller, self).__init__(
-            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads)
+            method.method_name, method.return_value, method.parameters,
+            unblock_threads=(method.unblock_threads if unblock_threads is None else unblock_threads),
+            throw=method.throw)
         #self.static_decl = False
         self.method = method
 
@@ -952,6 +965,8 @@ class CppVirtualMethodParentCaller(CppMethod):
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
 
+        self._write_open_try()
+
         if self.return_value.ctype == 'void':
             self.before_call.write_code(
                 '%s(%s);' %
@@ -966,6 +981,8 @@ class CppVirtualMethodParentCaller(CppMethod):
                     'retval = %s(%s);' %
                     (method, ", ".join(self.call_params)))
 
+        self._write_close_try()
+
     def get_py_method_def(self, method_name=None):
         "Get the PyMethodDef entry suitable for this method"
 
-- 
2.43.0


From 807c6f17b35725686cee0c30dd7aa92918418618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 49/89] fix: negative values were accepted for enums stored in
 a 64 bit unsigned type

---
 pybindgen/enum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index f88c416..f1a6ebc 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -25,7 +25,8 @@ def _write_assign(wrapper, code_block, param_name, lvalue, ctype, prepend=False)
     code_block.write_code('%s = (%s) %s;' % (lvalue, ctype, tmp))
 
 def _write_range_check(code_block, ctype, value):
-    code_block.write_error_check('(PY_LONG_LONG) (%s) %s != %s' % (ctype, value, value),
+    code_block.write_error_check('(PY_LONG_LONG) (%s) %s != %s || (%s < 0 && (%s) %s > (%s) 0)'
+                                 % (ctype, value, value, value, ctype, value, ctype),
                                  'PyErr_SetString(PyExc_OverflowError, "Out of range");')
 
 class EnumParam(inttype.IntParam):
-- 
2.43.0


From 0e4da9cf0696e74e032bbba0daea86b925f30d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 50/89] fix: const references to classes with implicit
 conversions were passed as sliced copies

---
 pybindgen/cppclass.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6c50951..010ef62 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3236,12 +3236,16 @@ class CppClassRefParameter(CppClassParameterBase):
                         'PyObject*', self.name)
                     tmp_value_variable = wrapper.declarations.declare_variable(
                         self.cpp_class.full_name, self.name)
+                    ## only converted values are temporary: an instance
+                    ## of the class itself is passed as it is
+                    ptr_variable = wrapper.declarations.declare_variable(
+                        self.cpp_class.full_name + '*', self.name + '_ptr', '&' + tmp_value_variable)
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name)
 
                     wrapper.before_call.write_code("if (PyObject_TypeCheck(%s, &%s)) {\n"
-                                                   "    %s = *((%s *) %s)->obj;" %
+                                                   "    %s = &*((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
-                                                    tmp_value_variable,
+                                                    ptr_variable,
                                                     self.cpp_class.pystruct, self.py_name))
                     for conversion_source in implicit_conversion_sources:
                         wrapper.before_call.write_code("} else if (PyObject_TypeCheck(%s, &%s)) {\n"
@@ -3257,7 +3261,7 @@ class CppClassRefParameter(CppClassParameterBase):
                     wrapper.before_call.unindent()
                     wrapper.before_call.write_code("}")
 
-                    wrapper.call_params.append(tmp_value_variable)
+                    wrapper.call_params.append('*' + ptr_variable)
 
         elif self.direction == Parameter.DIRECTION_OUT:
             assert not self.take_value_from_python_self
-- 
2.43.0


From db23729eb1a154dbe6fff9ed8008b22ec37a7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 51/89] fix: methods re-defined by the second base of a class
 with several bases were called on a wrong address

---
 pybindgen/cppclass.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 010ef62..99b4549 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2383,6 +2383,11 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
                     overload.pystruct = self.pystruct
                     methods[method_name] = overload
 
+                # methods that a more derived parent class re-defined are hidden by those
+                if any(wrapper.original_class is not base and wrapper.original_class.is_subclass(base)
+                       for wrapper in overload.wrappers):
+                    continue
+
                 for parent_wrapper in parent_overload.wrappers:
 
                     if parent_wrapper.visibility != 'public':
-- 
2.43.0


From b315403c821a832576a01c4076b8e503ef791a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 52/89] fix: default values of class pointer and smart pointer
 parameters were ignored

---
 pybindgen/cppclass.py               | 10 +++++++---
 pybindgen/typehandlers/smart_ptr.py |  7 +++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 99b4549..1ce32c3 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3575,6 +3575,10 @@ class CppClassPtrParameter(CppClassParameterBase):
 
             value_ptr = wrapper.declarations.declare_variable("%s*" % self.cpp_class.full_name,
                                                               "%s_ptr" % self.name)
+            if self.default_value:
+                default = "(%s*) (%s)" % (self.cpp_class.full_name, self.default_value)
+            else:
+                default = "NULL"
 
             if self.null_ok:
                 num = wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name, optional=bool(self.default_value))
@@ -3592,14 +3596,14 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                "    else\n"
                                                "        %(VALUE)s = %(PYNAME)s->obj;\n"
                                                "} else {\n"
-                                               "    %(VALUE)s = NULL;\n"
-                                               "}" % dict(PYNAME=self.py_name, VALUE=value_ptr))
+                                               "    %(VALUE)s = %(DEFAULT)s;\n"
+                                               "}" % dict(PYNAME=self.py_name, VALUE=value_ptr, DEFAULT=default))
 
             else:
 
                 wrapper.parse_params.add_parameter(
                     'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
-                wrapper.before_call.write_code("%s = (%s ? %s->obj : NULL);" % (value_ptr, self.py_name, self.py_name))
+                wrapper.before_call.write_code("%s = (%s ? %s->obj : %s);" % (value_ptr, self.py_name, self.py_name, default))
 
         value = self.transformation.transform(self, wrapper.declarations, wrapper.before_call, value_ptr)
         wrapper.call_params.append(value)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index c2778d6..f91e201 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -196,14 +196,17 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                                            "    else\n"
                                            "        %(VALUE)s = %(PYNAME)s->obj;\n"
                                            "} else {\n"
-                                           "    %(VALUE)s = NULL;\n"
-                                           "}" % dict(PYNAME=self.py_name, VALUE=value_ptr))
+                                           "    %(VALUE)s = %(DEFAULT)s;\n"
+                                           "}" % dict(PYNAME=self.py_name, VALUE=value_ptr,
+                                                      DEFAULT=(self.default_value or "NULL")))
 
         else:
 
             wrapper.parse_params.add_parameter(
                 'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
             wrapper.before_call.write_code("if (%s) { %s = %s->obj; }" % (self.py_name, value_ptr, self.py_name))
+            if self.default_value:
+                wrapper.before_call.write_code("else { %s = %s; }" % (value_ptr, self.default_value))
 
         wrapper.call_params.append(value_ptr)
         
-- 
2.43.0


From f5c45793dd90e2f7dca84060db61f502230b915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 53/89] fix: null class pointers given to virtual methods
 crashed, inout class pointers were passed twice

---
 pybindgen/cppclass.py               | 50 +++++++++++++++++++++--------
 pybindgen/typehandlers/smart_ptr.py | 29 +++++++++++------
 2 files changed, 57 insertions(+), 22 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 1ce32c3..fb62e99 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3021,7 +3021,7 @@ class CppClassParameterBase(Parameter):
         self.take_value_from_python_self = False
 
 
-    def _add_temporary_wrapper_cleanup(self, wrapper, value):
+    def _add_temporary_wrapper_cleanup(self, wrapper, value, condition=None):
         """
         Reverse wrappers, out/inout parameters: add the code that
         releases the temporary wrapper of a C++ object that is not
@@ -3029,6 +3029,9 @@ class CppClassParameterBase(Parameter):
         call ended, else an object of the caller would be deleted.
         """
         cleanup = CodeBlock("", wrapper.declarations)
+        if condition is not None:
+            cleanup.write_code("if (%s) {" % condition)
+            cleanup.indent()
         if self.cpp_class.has_copy_constructor:
             ## if after the call we notice the callee kept a reference
             ## to the pyobject, we then swap pywrapper->obj for a copy
@@ -3053,6 +3056,9 @@ class CppClassParameterBase(Parameter):
             ## it's not safe for the python wrapper to keep a
             ## pointer to the object anymore; just set it to NULL.
             cleanup.write_code("%s->obj = NULL;" % (self.py_name,))
+        if condition is not None:
+            cleanup.unindent()
+            cleanup.write_code('}')
         cleanup.write_code("Py_DECREF(%s);" % self.py_name)
         wrapper.before_call.add_cleanup_code(cleanup.sink.flush().rstrip())
 
@@ -3647,6 +3653,19 @@ class CppClassPtrParameter(CppClassParameterBase):
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        ## out/inout case: the callee may receive a "temporary wrapper"
+        temporary = (self.direction != Parameter.DIRECTION_IN and not self.transfer_ownership
+                     and not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy))
+        if temporary:
+            is_temporary = wrapper.declarations.declare_variable('bool', 'is_temporary', 'false')
+
+        # a NULL value is converted to None
+        wrapper.before_call.write_code("if (!(%s)) {\n"
+                                       "    Py_INCREF(Py_None);\n"
+                                       "    %s = (%s *) Py_None;\n"
+                                       "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.before_call.indent()
+
         def write_create_new_wrapper():
             """Code path that creates a new wrapper for the parameter"""
 
@@ -3673,7 +3692,11 @@ class CppClassPtrParameter(CppClassParameterBase):
 
             ## Assign the C++ value to the Python wrapper
             if self.transfer_ownership:
-                wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+                if self.type_traits.target_is_const:
+                    wrapper.before_call.write_code("%s->obj = (%s*) (%s);" %
+                                                   (py_name, self.cpp_class.full_name, value))
+                else:
+                    wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
             else:
                 if not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
                     ## The PyObject gets a temporary pointer to the
@@ -3702,8 +3725,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                             unconst_value = value
                         wrapper.before_call.write_code(
                             "%s->obj = %s;" % (self.py_name, unconst_value))
-                        wrapper.build_params.add_parameter("O", [self.py_name])
-                        self._add_temporary_wrapper_cleanup(wrapper, '*'+value)
+                        wrapper.before_call.write_code("%s = true;" % is_temporary)
                 else:
                     ## The PyObject gets a new reference to the same obj
                     self.cpp_class.memory_policy.write_incref(wrapper.before_call, value)
@@ -3712,6 +3734,9 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                        (py_name, self.cpp_class.full_name, value))
                     else:
                         wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+            if not temporary:
+                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
+                                                                           "%s->obj" % py_name)
         ## closes def write_create_new_wrapper():
 
         if self.cpp_class.helper_class is None:
@@ -3724,17 +3749,12 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call, self.cpp_class.pystruct, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
@@ -3768,19 +3788,23 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call, self.cpp_class.pystruct, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, "%s->obj" % py_name)
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
+
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("}") # closes if (!(%s)) ... else
+
+        if temporary:
+            wrapper.build_params.add_parameter("O", [py_name])
+            self._add_temporary_wrapper_cleanup(wrapper, '*'+value, is_temporary)
+        else:
             wrapper.build_params.add_parameter("N", [py_name])
 
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index f91e201..065821c 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -224,6 +224,13 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # a NULL value is converted to None
+        wrapper.before_call.write_code("if (!(%s)) {\n"
+                                       "    Py_INCREF(Py_None);\n"
+                                       "    %s = (%s *) Py_None;\n"
+                                       "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.before_call.indent()
+
         def write_create_new_wrapper():
             """Code path that creates a new wrapper for the parameter"""
 
@@ -253,20 +260,20 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
         if self.cpp_class.helper_class is None:
             try:
                 self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                    wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                    wrapper.before_call, self.cpp_class.pystruct, py_name,
+                    self.cpp_class.memory_policy.get_pointer_to_void_name(value))
             except NotSupportedError:
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
@@ -292,24 +299,28 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             try:
                 self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                    wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                    wrapper.before_call, self.cpp_class.pystruct, py_name,
+                    self.cpp_class.memory_policy.get_pointer_to_void_name(value))
             except NotSupportedError:
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, "%s->obj" % py_name)
+                    wrapper.before_call, py_name, self.cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
-            wrapper.build_params.add_parameter("N", [py_name])
-            
+
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("}") # closes if (!(%s)) ... else
+        wrapper.build_params.add_parameter("N", [py_name])
+
 
 
 
-- 
2.43.0


From b736b8b80cc96b91de33c0fe445106465be05a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 54/89] fix: const references to classes with a default value
 were passed as sliced copies

---
 pybindgen/cppclass.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index fb62e99..5bd23fe 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3229,9 +3229,17 @@ class CppClassRefParameter(CppClassParameterBase):
                                                                      self.py_name, default_value_name))
                         else:
                             self.cpp_class.get_construct_name() # raises an exception if the class cannot be constructed
-                            wrapper.call_params.append(
-                                '(%s ? (*((%s *) %s)->obj) : %s)' % (self.py_name, self.cpp_class.pystruct,
-                                                                     self.py_name, self.default_value))
+                            if self.type_traits.target_is_const:
+                                ## choose between pointers: a choice between the object
+                                ## and a temporary value would make a copy of the object
+                                wrapper.call_params.append(
+                                    '*(%s ? (const %s *) &*((%s *) %s)->obj : &static_cast<const %s &>(%s))'
+                                    % (self.py_name, self.cpp_class.full_name, self.cpp_class.pystruct,
+                                       self.py_name, self.cpp_class.full_name, self.default_value))
+                            else:
+                                wrapper.call_params.append(
+                                    '(%s ? (*((%s *) %s)->obj) : %s)' % (self.py_name, self.cpp_class.pystruct,
+                                                                         self.py_name, self.default_value))
                     else:
                         self.py_name = wrapper.declarations.declare_variable(
                             self.cpp_class.pystruct+'*', self.name)
-- 
2.43.0


From f45a6501d1ec86411354f49911ffb854caa9dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 55/89] fix: types imported from another module could not be
 renamed, nor use narrowing together with a wrapper registry

---
 pybindgen/cppclass.py         | 4 ++--
 pybindgen/wrapper_registry.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 5bd23fe..23a1200 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1938,7 +1938,7 @@ typedef struct {
         if ' named ' in self.import_from_module:
             module_name, type_name = self.import_from_module.split(" named ")
         else:
-            module_name, type_name = self.import_from_module, self.name
+            module_name, type_name = self.import_from_module, self.get_python_name()
         code_sink.writeln("PyTypeObject *_%s;" % self.pytypestruct)
         module.after_init.write_code("/* Import the %r class from module %r */" % (self.full_name, self.import_from_module))
         module.after_init.write_code("{"); module.after_init.indent()
@@ -1949,7 +1949,7 @@ typedef struct {
             "}" % (error_retcode,))
 
         module.after_init.write_code("_%s = (PyTypeObject*) PyObject_GetAttrString(module, (char*) \"%s\");\n"
-                                     % (self.pytypestruct, self.get_python_name()))
+                                     % (self.pytypestruct, type_name))
         module.after_init.write_code("if (PyErr_Occurred()) PyErr_Clear();")
 
         if self.typeid_map_name is not None:
diff --git a/pybindgen/wrapper_registry.py b/pybindgen/wrapper_registry.py
index f7e1ca9..8ea4b6b 100644
--- a/pybindgen/wrapper_registry.py
+++ b/pybindgen/wrapper_registry.py
@@ -89,6 +89,7 @@ class StdMapWrapperRegistry(WrapperRegistry):
 
     def generate_import(self, code_sink, code_block, module_pyobj_var):
         code_sink.writeln("std::map<void*, PyObject*> *_%s;" % self.map_name)
+        code_block.write_code("{"); code_block.indent() # own scope: the caller may also have a _cobj
         code_block.write_code("PyObject *_cobj = PyObject_GetAttrString(%s, (char*) \"_%s\");"
                               % (module_pyobj_var, self.map_name))
         code_block.write_code("if (_cobj == NULL) {\n"
@@ -99,6 +100,7 @@ class StdMapWrapperRegistry(WrapperRegistry):
                               "    Py_DECREF(_cobj);\n"
                               "}"
                               % dict(MAP=self.map_name))
+        code_block.unindent(); code_block.write_code("}")
 
     def write_register_new_wrapper(self, code_block, wrapper_lvalue, object_rvalue):
         code_block.write_code("%s[(void *) %s] = (PyObject *) %s;" % (self.map_name, object_rvalue, wrapper_lvalue))
-- 
2.43.0


From 7ba70926e0c184e21fb046034cdd395595f7cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 56/89] fix: submodules could not be imported by name, so their
 types could not be used in other modules

---
 pybindgen/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybindgen/module.py b/pybindgen/module.py
index 42a0e4b..08ebe67 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -814,6 +814,11 @@ class ModuleBase(dict):
             self.after_init.write_code('Py_INCREF(%s);' % (submodule_var,))
             self.after_init.write_code('PyModule_AddObject(m, (char *) "%s", %s);'
                                        % (submodule.name, submodule_var,))
+            ## Py_InitModule3 also makes the submodule importable, PyModule_Create does not
+            self.after_init.write_code('#if PY_VERSION_HEX >= 0x03000000')
+            self.after_init.write_code('PyDict_SetItemString(PyImport_GetModuleDict(), (char *) "%s", %s);'
+                                       % ('.'.join(submodule.get_module_path()), submodule_var))
+            self.after_init.write_code('#endif')
 
         ## flush the header section
         self.header.flush_to(out.get_includes_code_sink())
-- 
2.43.0


From 3e805ff3180680648743fdf3961c7e89cef3f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 57/89] fix: using a nested class imported from another module
 crashed

---
 pybindgen/cppclass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 23a1200..42f1181 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1948,8 +1948,12 @@ typedef struct {
             "    return %s;\n"
             "}" % (error_retcode,))
 
-        module.after_init.write_code("_%s = (PyTypeObject*) PyObject_GetAttrString(module, (char*) \"%s\");\n"
-                                     % (self.pytypestruct, type_name))
+        get_type = "PyObject_GetAttrString(module, (char*) \"%s\")" % type_name
+        if self.outer_class is not None and self.outer_class.import_from_module:
+            ## nested classes are attributes of the class where they are nested
+            outer = "_%s" % self.outer_class.pytypestruct
+            get_type = "(%s? PyObject_GetAttrString((PyObject*) %s, (char*) \"%s\") : NULL)" % (outer, outer, type_name)
+        module.after_init.write_code("_%s = (PyTypeObject*) %s;\n" % (self.pytypestruct, get_type))
         module.after_init.write_code("if (PyErr_Occurred()) PyErr_Clear();")
 
         if self.typeid_map_name is not None:
-- 
2.43.0


From c927e71f990356797ae6427fdfd471013b4b4a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 58/89] fix: wrapper of an object was left dangling when the
 function that took ownership threw

---
 pybindgen/cppclass.py          | 18 +++++++++++-------
 pybindgen/cppmethod.py         |  4 ++++
 pybindgen/function.py          |  2 ++
 pybindgen/typehandlers/base.py |  4 ++++
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 42f1181..9d7b308 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3626,22 +3626,26 @@ class CppClassPtrParameter(CppClassParameterBase):
         value = self.transformation.transform(self, wrapper.declarations, wrapper.before_call, value_ptr)
         wrapper.call_params.append(value)
 
+        self.write_transfer_ownership(wrapper.after_call)
+
+    def write_transfer_ownership(self, code_block):
+        """See Parameter.write_transfer_ownership"""
         if self.transfer_ownership:
             if not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
                 # if we transfer ownership, in the end we no longer own the object, so clear our pointer
-                wrapper.after_call.write_code('if (%s && (PyObject *) %s != Py_None) {' % (self.py_name, self.py_name))
-                wrapper.after_call.indent()
+                code_block.write_code('if (%s && (PyObject *) %s != Py_None) {' % (self.py_name, self.py_name))
+                code_block.indent()
                 if self.cpp_class.memory_policy is not None:
-                    self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
+                    self.cpp_class.wrapper_registry.write_unregister_wrapper(code_block,
                                                                             '%s' % self.py_name,
                                                                             self.cpp_class.memory_policy.get_pointer_to_void_name('%s->obj' % self.py_name))
                 else:
-                    self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
+                    self.cpp_class.wrapper_registry.write_unregister_wrapper(code_block,
                                                                             '%s' % self.py_name,
                                                                             '%s->obj' % self.py_name)
-                wrapper.after_call.write_code('%s->obj = NULL;' % self.py_name)
-                wrapper.after_call.unindent()
-                wrapper.after_call.write_code('}')
+                code_block.write_code('%s->obj = NULL;' % self.py_name)
+                code_block.unindent()
+                code_block.write_code('}')
 
     def write_before_call(self, wrapper):
         """See Parameter.write_before_call"""
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 0196e57..c5ab7a8 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -314,6 +314,8 @@ class CppMethod(ForwardWrapperBase):
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
                 self.write_block_threads(self.before_call)
+                for param in self.parameters:
+                    param.write_transfer_ownership(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
@@ -711,6 +713,8 @@ class CppConstructor(ForwardWrapperBase):
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
                 self.write_block_threads(self.before_call)
+                for param in self.parameters:
+                    param.write_transfer_ownership(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return -1;')
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 0062fce..b40a963 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -215,6 +215,8 @@ class Function(ForwardWrapperBase):
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
                 self.write_block_threads(self.before_call)
+                for param in self.parameters:
+                    param.write_transfer_ownership(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 9166076..37ce08a 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -1373,6 +1373,10 @@ class _Parameter(TypeHandler):
         '''Write code that must only run once no parameter can be
         rejected any more, i.e. right before calling the C function.'''
 
+    def write_transfer_ownership(self, code_block):
+        '''Write code that gives up what the C function took ownership of;
+        it runs when the C function has returned, or thrown an exception.'''
+
 if PY3:
     Parameter = types.new_class("Parameter", (_Parameter,), dict(metaclass=ParameterMeta))
 else:
-- 
2.43.0


From b47badb68ddea53c4c5f74927196ad88bb28e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 59/89] fix: an exception thrown by a void virtual method left
 the GIL acquired

---
 pybindgen/cppmethod.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index c5ab7a8..f364795 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1105,11 +1105,12 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         self.before_call.write_code(
             r'if (%s == NULL || Py_TYPE(%s) == &PyCFunction_Type) {' % (py_method, py_method))
         if self.return_value.ctype == 'void':
-            if not (self.method.is_pure_virtual or self.method.visibility == 'private'):
-                self.before_call.write_code(r'    %s::%s(%s);'
-                                            % (self.class_.full_name, self.method_name, call_params))
             self.before_call.indent()
+            # clean up first: the parent method may throw, or block
             self.before_call.write_cleanup()
+            if not (self.method.is_pure_virtual or self.method.visibility == 'private'):
+                self.before_call.write_code(r'%s::%s(%s);'
+                                            % (self.class_.full_name, self.method_name, call_params))
             self.before_call.write_code('return;')
             self.before_call.unindent()
         else:
-- 
2.43.0


From a1e7bdbc2147377b6d7f507c0360fcd89a53e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:18 +0000
Subject: [PATCH 60/89] fix: function as constructor ignored
 caller_owns_return=False

---
 pybindgen/cppmethod.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index f364795..628ed06 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -835,10 +835,17 @@ class CppFunctionAsConstructor(CppConstructor):
             class_ = self._class
         #assert isinstance(class_, CppClass)
         assert class_.helper_class is None
-        ## FIXME: check caller_owns_return in self.function_return_value
         self.before_call.write_code("self->obj = %s(%s);" %
                                     (self.c_function_name, ", ".join(self.call_params)))
-        self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
+        flags = 'PYBINDGEN_WRAPPER_FLAG_NONE'
+        if getattr(self.function_return_value, 'caller_owns_return', None) is False:
+            ## the function keeps the instance it returns
+            from . import cppclass
+            if isinstance(class_.memory_policy, cppclass.ReferenceCountingPolicy):
+                class_.memory_policy.write_incref(self.before_call, 'self->obj')
+            else:
+                flags = 'PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED'
+        self.before_call.write_code("self->flags = %s;" % flags)
 
 
 class CppOverloadedConstructor(overloading.OverloadedWrapper):
-- 
2.43.0


From 04adcba3b24806a279b605ef4041316faedb6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:18 +0000
Subject: [PATCH 61/89] fix: function as constructor ignored unblock_threads

---
 pybindgen/cppmethod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 628ed06..9f5a2fe 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -825,7 +825,7 @@ class CppFunctionAsConstructor(CppConstructor):
             unblock_threads = settings.unblock_threads
 
         parameters = [utils.eval_param(param, self) for param in parameters]
-        super(CppFunctionAsConstructor, self).__init__(parameters)
+        super(CppFunctionAsConstructor, self).__init__(parameters, unblock_threads)
         self.c_function_name = c_function_name
         self.function_return_value = return_value
 
-- 
2.43.0


From f7c23c0ca0499d19db8a9808e567090bd2072c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 62/89] fix: function as method without custom_name was exposed
 as 'None'

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9d7b308..36ae00e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1450,7 +1450,7 @@ public:
         if isinstance(method, CppMethod):
             name = method.mangled_name
         elif isinstance(method, function.Function):
-            name = method.custom_name
+            name = method.mangled_name
             assert isinstance(method.parameters[0], CppClassParameterBase)
             assert method.parameters[0].cpp_class is self, \
                 "expected first parameter to be of class %s, but it is of class %s" % \
-- 
2.43.0


From 654b2cd6e1d5aabd1feafb9171abd90a3b5f0607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 63/89] fix: instances of Python subclasses were constructed
 and destroyed without the GIL

---
 pybindgen/cppclass.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 36ae00e..7dbd256 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -418,16 +418,26 @@ class CppHelperClass(object):
         code_sink.writeln("""
 void set_pyobj(PyObject *pyobj)
 {
+    // the GIL is not held if the constructor runs with unblock_threads
+    PyGILState_STATE gil_state = PyGILState_Ensure();
     Py_XDECREF(m_pyself);
     Py_INCREF(pyobj);
     m_pyself = pyobj;
+    PyGILState_Release(gil_state);
 }
 """)
 
         ## write a destructor
         code_sink.writeln("virtual ~%s()\n{" % self.name)
         code_sink.indent()
+        code_sink.writeln("// C++ may destroy the instance in any thread, whether or not it holds the GIL")
+        code_sink.writeln("if (m_pyself && Py_IsInitialized()) {")
+        code_sink.indent()
+        code_sink.writeln("PyGILState_STATE gil_state = PyGILState_Ensure();")
         code_sink.writeln("Py_CLEAR(m_pyself);")
+        code_sink.writeln("PyGILState_Release(gil_state);")
+        code_sink.unindent()
+        code_sink.writeln("}")
         code_sink.unindent()
         code_sink.writeln("}\n")
 
-- 
2.43.0


From 5afad41f65d9c353f273d6700b84fc171674d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 64/89] fix: garbage collection during a constructor that
 released the GIL destroyed the instance

---
 pybindgen/cppclass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 7dbd256..21a3e40 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2553,9 +2553,10 @@ static void
             else:
                 peekref_code = ''
             visit_self = '''
-    if (self->obj && !(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED) && typeid(*self->obj).name() == typeid(%s).name() %s)
+    if (self->obj && !(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED) && typeid(*self->obj).name() == typeid(%s).name()
+        && ((%s *) self->obj)->m_pyself %s)
         Py_VISIT((PyObject *) self);
-''' % (self.helper_class.name, peekref_code)
+''' % (self.helper_class.name, self.helper_class.name, peekref_code)
 
         code_sink.writeln(r'''
 static int
-- 
2.43.0


From 0da2fe81fd2fca17e95f27203a6a16b9b6ca76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:26 +0000
Subject: [PATCH 65/89] fix: rejected out parameters of a virtual method leaked
 the result of the override

---
 pybindgen/cppmethod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 9f5a2fe..8ad9e1f 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1069,7 +1069,6 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         self.before_call.write_code('py_retval = PyObject_CallMethod(%s);'
                                     % (', '.join(params),))
         self.before_call.write_error_check('py_retval == NULL', failure_cleanup='PyErr_Print();')
-        self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
 
     def generate_declaration(self, code_sink):
         if self.method.is_const:
@@ -1155,6 +1154,11 @@ Py_FatalError("Error detected, but parent virtual is pure virtual or private vir
         self.before_call.add_cleanup_code("reinterpret_cast< %s* >(m_pyself)->obj = %s;" %
                                           (self.class_.pystruct, self_obj_before))
 
+        ## registered before the parameters are converted, as they add
+        ## code that checks the values taken out of py_retval
+        self.before_call.write_code('py_retval = NULL;')
+        self.before_call.add_cleanup_code('Py_XDECREF(py_retval);')
+
         super(CppVirtualMethodProxy, self).generate(
             code_sink, '::'.join((self._helper_class.name, self.method_name)),
             decl_modifiers=[],
-- 
2.43.0


From 4a354f609d3e153c3c8c898bfec821976f6550c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 66/89] fix: instances given away or taken back while their
 overrides run, or overridden in several threads at once, got invalid wrappers

---
 pybindgen/cppclass.py  | 10 +++++++---
 pybindgen/cppmethod.py | 29 +++++++++++++++--------------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 21a3e40..9f142b6 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -392,6 +392,8 @@ class CppHelperClass(object):
 
         code_sink.indent()
         code_sink.writeln("PyObject *m_pyself;")
+        code_sink.writeln("mutable int m_pycalls; // overrides running now, in any thread")
+        code_sink.writeln("mutable bool m_pylent; // the wrapper has the instance only while they run")
 
         if not self.class_.import_from_module:
             ## replicate the parent constructors in the helper class
@@ -408,7 +410,7 @@ class CppHelperClass(object):
                           for param in cons.parameters]
                 code_sink.writeln("%s(%s)" % (self.name, ', '.join(params)))
                 code_sink.indent()
-                code_sink.writeln(": %s(%s), m_pyself(NULL)\n{}" %
+                code_sink.writeln(": %s(%s), m_pyself(NULL), m_pycalls(0), m_pylent(false)\n{}" %
                                   (self.class_.full_name,
                                    ', '.join([param.name for param in cons.parameters])))
                 code_sink.unindent()
@@ -2746,14 +2748,16 @@ if (!PyObject_TypeCheck((PyObject*) other, &%s)) {
         Generates code to make the existing wrapper of a helper class
         instance point to that instance (again).
         """
+        helper = "((%s*) %s)" % (self.helper_class.name, value)
         if not isinstance(self.memory_policy, ReferenceCountingPolicy):
             if take_ownership:
                 code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % wrapper)
             else:
                 # ownership was transferred before, and that does not change
-                code_block.write_code("if (%s->obj == NULL)\n"
-                                      "    %s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (wrapper, wrapper))
+                code_block.write_code("if (%s->obj == NULL || %s->m_pylent)\n"
+                                      "    %s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (wrapper, helper, wrapper))
         code_block.write_code("%s->obj = %s;" % (wrapper, value))
+        code_block.write_code("%s->m_pylent = false;" % helper)
 
     def write_allocate_pystruct(self, code_block, lvalue, wrapper_type=None):
         """
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 8ad9e1f..143d82a 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1139,20 +1139,21 @@ Py_FatalError("Error detected, but parent virtual is pure virtual or private vir
             self.before_call.unindent()
         self.before_call.write_code('}')
 
-        ## Set "m_pyself->obj = this" around virtual method call invocation
-        self_obj_before = self.declarations.declare_variable(
-            '%s*' % self.class_.full_name, 'self_obj_before')
-        self.before_call.write_code("%s = reinterpret_cast< %s* >(m_pyself)->obj;" %
-                                    (self_obj_before, self.class_.pystruct))
-        if self.method.is_const:
-            this_expression = ("const_cast< %s* >((const %s*) this)" %
-                               (self.class_.full_name, self.class_.full_name))
-        else:
-            this_expression = "(%s*) this" % (self.class_.full_name)
-        self.before_call.write_code("reinterpret_cast< %s* >(m_pyself)->obj = %s;" %
-                                    (self.class_.pystruct, this_expression))
-        self.before_call.add_cleanup_code("reinterpret_cast< %s* >(m_pyself)->obj = %s;" %
-                                          (self.class_.pystruct, self_obj_before))
+        ## Set "m_pyself->obj = this" around virtual method call
+        ## invocation, if the wrapper gave the instance away; it may be
+        ## invoked by several threads at once
+        helper_class = self._helper_class.class_
+        pyself = "reinterpret_cast< %s* >(m_pyself)" % helper_class.pystruct
+        this_expression = "(%s*) this" % helper_class.full_name
+        self.before_call.write_code("if (%s->obj == NULL) {\n"
+                                    "    %s->obj = %s;\n"
+                                    "    m_pylent = true;\n"
+                                    "}\n"
+                                    "m_pycalls++;" % (pyself, pyself, this_expression))
+        self.before_call.add_cleanup_code("if (--m_pycalls == 0 && m_pylent) {\n"
+                                          "    %s->obj = NULL;\n"
+                                          "    m_pylent = false;\n"
+                                          "}" % pyself)
 
         ## registered before the parameters are converted, as they add
         ## code that checks the values taken out of py_retval
-- 
2.43.0


From faef9fe925e5d1fbc91c5f97888389deebaedfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 67/89] fix: 'T**' and 'T<X>::member' were not normalized like
 their other spellings

---
 pybindgen/typehandlers/ctypeparser/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/ctypeparser/__init__.py b/pybindgen/typehandlers/ctypeparser/__init__.py
index 5c05ebc..68de1fc 100644
--- a/pybindgen/typehandlers/ctypeparser/__init__.py
+++ b/pybindgen/typehandlers/ctypeparser/__init__.py
@@ -131,9 +131,13 @@ def _parse_type_recursive(tokens):
     while tokens:
         token = tokens.pop(0)
         if token.name.startswith('::'):
-            token.name = token.name[2:]
+            ## '::' is dropped from the start of a name, but not from
+            ## that of a member of a class template, e.g. foo<int>::bar
+            last_token = ctype.tokens and ctype.tokens[-1]
+            if not (isinstance(last_token, tokenizer.Token) and last_token.name == '>'):
+                token.name = token.name[2:]
         if token.token_type == tokenizer.SYNTAX:
-            if token.name in [ '>>' ]:
+            if token.name in ['>>', '**']:
                 tokens.insert(0, tokenizer.Token(tokenizer.SYNTAX, token.name[0], None, None))
                 tokens.insert(0, tokenizer.Token(tokenizer.SYNTAX, token.name[0], None, None))
                 continue
-- 
2.43.0


From 94e0224547e1f10d04a9ca015292712d2c915d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 68/89] fix: the const of a function's return type was moved
 behind its parameters

---
 pybindgen/typehandlers/ctypeparser/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/ctypeparser/__init__.py b/pybindgen/typehandlers/ctypeparser/__init__.py
index 68de1fc..dc4f1b4 100644
--- a/pybindgen/typehandlers/ctypeparser/__init__.py
+++ b/pybindgen/typehandlers/ctypeparser/__init__.py
@@ -29,7 +29,8 @@ class CType(object):
         """
         Reoder const modifiers, as rightward as possible without
         changing the meaning of the type.  I.e., move modifiers to the
-        right until a * or & is found."""
+        right until a * or & is found, or the parenthesis after the
+        return type of a function."""
         for modifier in MODIFIERS:
             self._reorder_modifier(modifier)
 
@@ -51,7 +52,7 @@ class CType(object):
                         other_token = self.tokens[new_pos]
                         if isinstance(other_token, CType):
                             continue
-                        if other_token.name in ['*', '&']:
+                        if other_token.name in ['*', '&', '(']:
                             self.tokens.insert(new_pos, token)
                             break
                     else:
-- 
2.43.0


From 0795385e82a6ea70944be853984da0bd8a136345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 69/89] fix: template arguments such as -1, 'a' or with several
 blanks gave invalid C++ names

---
 pybindgen/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index 9b9447a..c701971 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -1,4 +1,5 @@
 
+import re
 import sys
 PY3 = (sys.version_info[0] >= 3)
 
@@ -157,10 +158,12 @@ struct PyBindGenPythonHelperBase {};
 
 def mangle_name(name):
     """make a name Like<This,and,That> look Like__lt__This_and_That__gt__"""
-    s = name.replace('<', '__lt__').replace('>', '__gt__').replace(',', '_')
+    s = ' '.join(name.split()).replace('<', '__lt__').replace('>', '__gt__').replace(',', '_')
     s = s.replace(' ', '_').replace('&', '__amp__').replace('*', '__star__')
     s = s.replace(':', '_')
     s = s.replace('(', '_lp_').replace(')', '_rp_')
+    ## whatever else may appear in template arguments, e.g. -1 or 'a'
+    s = re.sub(r'\W', lambda match: '_%x_' % ord(match.group()), s)
     return s
 
 
-- 
2.43.0


From e46b56aba912138d75f7fd3be9c6b6fecb59b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 70/89] fix: docstrings with quotes or several lines gave code
 that does not compile

---
 pybindgen/cppclass.py           |  2 +-
 pybindgen/cppclass_container.py |  2 +-
 pybindgen/cppexception.py       |  2 +-
 pybindgen/cppmethod.py          |  4 ++--
 pybindgen/function.py           |  2 +-
 pybindgen/module.py             |  4 ++--
 pybindgen/overloading.py        |  2 +-
 pybindgen/utils.py              | 13 +++++++++++++
 8 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9f142b6..14728c8 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2276,7 +2276,7 @@ typedef struct {
             docstring = self.generate_docstring()
 
         self.slots.setdefault("tp_doc", (docstring is None and 'NULL'
-                                         or "\"%s\"" % (docstring,)))
+                                         or utils.c_string(docstring)))
         dict_ = self.slots
         dict_.setdefault("typestruct", self.pytypestruct)
 
diff --git a/pybindgen/cppclass_container.py b/pybindgen/cppclass_container.py
index 3274942..68a5409 100644
--- a/pybindgen/cppclass_container.py
+++ b/pybindgen/cppclass_container.py
@@ -158,7 +158,7 @@ typedef struct {
         self.iter_pytype.slots.setdefault("typestruct", self.iter_pytypestruct)
         self.iter_pytype.slots.setdefault("tp_name", self.get_iter_python_full_name(module))
         if docstring:
-            self.iter_pytype.slots.setdefault("tp_doc", '"%s"' % docstring)
+            self.iter_pytype.slots.setdefault("tp_doc", utils.c_string(docstring))
         self.iter_pytype.generate(code_sink)
 
     def _get_iter_delete_code(self):
diff --git a/pybindgen/cppexception.py b/pybindgen/cppexception.py
index 252a04f..295157e 100644
--- a/pybindgen/cppexception.py
+++ b/pybindgen/cppexception.py
@@ -153,7 +153,7 @@ class CppException(object):
         module.after_init.write_error_check('(%s = (PyTypeObject*) PyErr_NewException((char*)"%s", %s, NULL)) == NULL'
                                             % (self.pytypestruct, self.python_full_name, parent))
         if docstring:
-            module.after_init.write_code("%s->tp_doc = (char*)\"%s\";" % (self.pytypestruct, docstring))
+            module.after_init.write_code("%s->tp_doc = (char*)%s;" % (self.pytypestruct, utils.c_string(docstring)))
 
         if self.outer_class is None:
             module.after_init.write_code(
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 143d82a..996a4c6 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -436,7 +436,7 @@ class CppMethod(ForwardWrapperBase):
 
         return "{(char *) \"%s\", (PyCFunction) %s, %s, %s }," % \
                (method_name, self.wrapper_actual_name, '|'.join(sorted(flags)),
-                (self.docstring is None and "NULL" or ('"'+self.docstring+'"')))
+                (self.docstring is None and "NULL" or utils.c_string(self.docstring)))
 
     def generate_docstring(self, name):
         parameters = self.parameters
@@ -1008,7 +1008,7 @@ class CppVirtualMethodParentCaller(CppMethod):
                (method_name,
                 self.wrapper_actual_name,#'::'.join((self._helper_class.name, self.wrapper_actual_name)),
                 '|'.join(sorted(flags)),
-                (self.docstring is None and "NULL" or ('"'+self.docstring+'"')))
+                (self.docstring is None and "NULL" or utils.c_string(self.docstring)))
 
     def clone(self):
         """
diff --git a/pybindgen/function.py b/pybindgen/function.py
index b40a963..264329f 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -303,7 +303,7 @@ class Function(ForwardWrapperBase):
 
         return "{(char *) \"%s\", (PyCFunction) %s, %s, %s }," % \
                (name, self.wrapper_actual_name, '|'.join(sorted(flags)),
-                (self.docstring is None and "NULL" or ('"'+self.docstring+'"')))
+                (self.docstring is None and "NULL" or utils.c_string(self.docstring)))
 
     def generate_docstring(self, name):
         parameters = self.parameters
diff --git a/pybindgen/module.py b/pybindgen/module.py
index 08ebe67..9671ceb 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -715,7 +715,7 @@ class ModuleBase(dict):
         self.before_init.write_code(
             "m = Py_InitModule3((char *) \"%s\", %s_functions, %s);"
             % (mod_init_name, self.prefix,
-               self.docstring and '"'+self.docstring+'"' or 'NULL'))
+               self.docstring and utils.c_string(self.docstring) or 'NULL'))
         self.before_init.write_code('#endif')
         self.before_init.write_error_check("m == NULL")
 
@@ -836,7 +836,7 @@ class ModuleBase(dict):
             '    %s_functions,\n'
             '};\n'
             '#endif' % (self.prefix, mod_init_name,
-                        self.docstring and '"'+self.docstring+'"' or 'NULL',
+                        self.docstring and utils.c_string(self.docstring) or 'NULL',
                         self.prefix))
         main_sink.writeln()
         if self.parent is None:
diff --git a/pybindgen/overloading.py b/pybindgen/overloading.py
index dc7bcef..186e435 100644
--- a/pybindgen/overloading.py
+++ b/pybindgen/overloading.py
@@ -290,7 +290,7 @@ class OverloadedWrapper(object):
 
             return "{(char *) \"%s\", (PyCFunction) %s, %s, %s }," % \
                 (name, self.wrapper_actual_name, '|'.join(sorted(flags)),
-                 (docstring is None and "NULL" or ('"'+docstring+'"')))
+                 (docstring is None and "NULL" or utils.c_string(docstring)))
 
     def generate_declaration(self, code_sink):
         self.reset_code_generation_state()
diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index c701971..88c9d06 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -167,6 +167,19 @@ def mangle_name(name):
     return s
 
 
+def c_string(text):
+    """
+    Returns a C string literal for a text, e.g. a docstring; C escape
+    sequences in the text are left alone.
+    """
+    def escape(match):
+        s = match.group()
+        if len(s) > 1 and s != '??':
+            return s
+        return {'"': '\\"', '\n': '\\n', '\r': '\\r', '??': '?\\?'}.get(s, '\\\\')
+    return '"%s"' % re.sub(r'\\[^\n\r]|\?\?|["\n\r\\]', escape, text)
+
+
 def get_mangled_name(base_name, template_args):
     """for internal pybindgen use"""
     assert isinstance(base_name, string_types)
-- 
2.43.0


From 93e312201b34b1b900490339c62d4a03323da6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 71/89] fix: modules in packages, and module_file_base_name,
 did not work with Python 3

---
 pybindgen/module.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybindgen/module.py b/pybindgen/module.py
index 9671ceb..0e57bc6 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -861,11 +861,9 @@ __attribute__ ((visibility("default")))
         else:
             main_sink.writeln("static PyObject *")
         if self.parent is None:
-            main_sink.writeln("MOD_INIT(%s)" % (self.name,))
-        elif module_file_base_name is None:
-            main_sink.writeln("%s(void)" % (self.init_function_name,))
+            main_sink.writeln("MOD_INIT(%s)" % (mod_init_name.split('.')[-1],))
         else:
-            main_sink.writeln("init%s(void)" % (module_file_base_name,))
+            main_sink.writeln("%s(void)" % (self.init_function_name,))
         main_sink.writeln('{')
         main_sink.indent()
         self.declarations.get_code_sink().flush_to(main_sink)
-- 
2.43.0


From e31ed4c86d708bb115b98bd1976fc81d80cbe350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 72/89] fix: a function's custom name equal to its C name was
 ignored

---
 pybindgen/function.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybindgen/function.py b/pybindgen/function.py
index 264329f..a9f66e4 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -97,12 +97,10 @@ class Function(ForwardWrapperBase):
         cppclass.scan_custodians_and_wards(self)
 
     def get_custom_name(self):
-        if self.mangled_name != utils.get_mangled_name(self.function_name, self.template_parameters):
-            return self.mangled_name
-        else:
-            return None
+        return self._custom_name
 
     def set_custom_name(self, custom_name):
+        self._custom_name = custom_name
         if custom_name is None:
             self.mangled_name = utils.get_mangled_name(self.function_name, self.template_parameters)
         else:
-- 
2.43.0


From 0da29dfde45ca63dd5af750d1a0c43f836beca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 73/89] fix: the __name__ of classes was not the name they have
 in their module

---
 pybindgen/cppclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 14728c8..c267c7a 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2282,10 +2282,10 @@ typedef struct {
 
         if self.outer_class is None:
             mod_path = self._module.get_module_path()
-            mod_path.append(self.mangled_name)
+            mod_path.append(self.get_python_name())
             dict_.setdefault("tp_name", '.'.join(mod_path))
         else:
-            dict_.setdefault("tp_name", '%s.%s' % (self.outer_class.slots['tp_name'], self.name))
+            dict_.setdefault("tp_name", '%s.%s' % (self.outer_class.slots['tp_name'], self.get_python_name()))
 
         ## tp_call support
         try:
-- 
2.43.0


From c5bd268d03c98bd3c515fb4bb33484699221f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:13 +0000
Subject: [PATCH 74/89] fix: a type's unqualified name hid the types that
 really have that name

---
 pybindgen/container.py              | 10 +++++-----
 pybindgen/cppclass.py               | 18 +++++++++---------
 pybindgen/enum.py                   |  8 ++++----
 pybindgen/typehandlers/base.py      | 12 ++++++++++--
 pybindgen/typehandlers/smart_ptr.py |  4 ++--
 5 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index c61fe1e..f2a7e69 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -159,7 +159,7 @@ class Container(object):
                 container_type = self
             self.ThisContainerParameter = ThisContainerParameter
             try:
-                param_type_matcher.register(name, self.ThisContainerParameter)
+                param_type_matcher.register(name, self.ThisContainerParameter, short_name=True)
             except ValueError:
                 pass
 
@@ -169,7 +169,7 @@ class Container(object):
                 container_type = self
             self.ThisContainerRefParameter = ThisContainerRefParameter
             try:
-                param_type_matcher.register(name + '&', self.ThisContainerRefParameter)
+                param_type_matcher.register(name + '&', self.ThisContainerRefParameter, short_name=True)
             except ValueError:
                 pass
 
@@ -179,7 +179,7 @@ class Container(object):
                 container_type = self
             self.ThisContainerPtrParameter = ThisContainerPtrParameter
             try:
-                param_type_matcher.register(name + '*', self.ThisContainerPtrParameter)
+                param_type_matcher.register(name + '*', self.ThisContainerPtrParameter, short_name=True)
             except ValueError:
                 pass
 
@@ -190,8 +190,8 @@ class Container(object):
             self.ThisContainerReturn = ThisContainerReturn
             self.ThisContainerRefReturn = ThisContainerReturn
             try:
-                return_type_matcher.register(name, self.ThisContainerReturn)
-                return_type_matcher.register(name + '&', self.ThisContainerRefReturn)
+                return_type_matcher.register(name, self.ThisContainerReturn, short_name=True)
+                return_type_matcher.register(name + '&', self.ThisContainerRefReturn, short_name=True)
             except ValueError:
                 pass
 
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index c267c7a..cc3c231 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -128,7 +128,7 @@ class MemoryPolicy(object):
             cpp_class = cls
         cls.ThisClassPtrParameter = ThisClassPtrParameter
         try:
-            param_type_matcher.register(name+'*', cls.ThisClassPtrParameter)
+            param_type_matcher.register(name+'*', cls.ThisClassPtrParameter, short_name=True)
         except ValueError:
             pass
 
@@ -138,7 +138,7 @@ class MemoryPolicy(object):
             cpp_class = cls
         cls.ThisClassPtrReturn = ThisClassPtrReturn
         try:
-            return_type_matcher.register(name+'*', cls.ThisClassPtrReturn)
+            return_type_matcher.register(name+'*', cls.ThisClassPtrReturn, short_name=True)
         except ValueError:
             pass
 
@@ -779,7 +779,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassParameter = ThisClassParameter
             try:
-                param_type_matcher.register(name, self.ThisClassParameter)
+                param_type_matcher.register(name, self.ThisClassParameter, short_name=True)
             except ValueError:
                 pass
 
@@ -790,7 +790,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassRefParameter = ThisClassRefParameter
             try:
-                param_type_matcher.register(name+'&', self.ThisClassRefParameter)
+                param_type_matcher.register(name+'&', self.ThisClassRefParameter, short_name=True)
             except ValueError:
                 pass
 
@@ -801,8 +801,8 @@ class CppClass(object):
             self.ThisClassReturn = ThisClassReturn
             self.ThisClassRefReturn = ThisClassReturn
             try:
-                return_type_matcher.register(name, self.ThisClassReturn)
-                return_type_matcher.register(name, self.ThisClassRefReturn)
+                return_type_matcher.register(name, self.ThisClassReturn, short_name=True)
+                return_type_matcher.register(name, self.ThisClassRefReturn, short_name=True)
             except ValueError:
                 pass
 
@@ -815,7 +815,7 @@ class CppClass(object):
                     cpp_class = self
                 self.ThisClassPtrParameter = ThisClassPtrParameter
                 try:
-                    param_type_matcher.register(name+'*', self.ThisClassPtrParameter)
+                    param_type_matcher.register(name+'*', self.ThisClassPtrParameter, short_name=True)
                 except ValueError:
                     pass
 
@@ -825,7 +825,7 @@ class CppClass(object):
                     cpp_class = self
                 self.ThisClassPtrReturn = ThisClassPtrReturn
                 try:
-                    return_type_matcher.register(name+'*', self.ThisClassPtrReturn)
+                    return_type_matcher.register(name+'*', self.ThisClassPtrReturn, short_name=True)
                 except ValueError:
                     pass
 
@@ -836,7 +836,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassRefReturn = ThisClassRefReturn
             try:
-                return_type_matcher.register(name+'&', self.ThisClassRefReturn)
+                return_type_matcher.register(name+'&', self.ThisClassRefReturn, short_name=True)
             except ValueError:
                 pass
 
diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index f1a6ebc..bd7df70 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -200,19 +200,19 @@ class Enum(object):
 
         if self.name != self.full_name:
             try:
-                param_type_matcher.register(self.name, self.ThisEnumParameter)
+                param_type_matcher.register(self.name, self.ThisEnumParameter, short_name=True)
             except ValueError:
                 pass
             try:
-                return_type_matcher.register(self.name, self.ThisEnumReturn)
+                return_type_matcher.register(self.name, self.ThisEnumReturn, short_name=True)
             except ValueError:
                 pass
             try:
-                param_type_matcher.register(self.name+' &', self.ThisEnumRefParameter)
+                param_type_matcher.register(self.name+' &', self.ThisEnumRefParameter, short_name=True)
             except ValueError:
                 pass
             try:
-                param_type_matcher.register(self.name+' *', self.ThisEnumPtrParameter)
+                param_type_matcher.register(self.name+' *', self.ThisEnumPtrParameter, short_name=True)
             except ValueError:
                 pass
 
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 37ce08a..078be8d 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -1409,6 +1409,7 @@ class TypeMatcher(object):
     def __init__(self):
         """Constructor"""
         self._types = {}
+        self._short_names = set()
         self._transformations = []
         self._type_aliases = {}
         self._type_aliases_rev = {}
@@ -1419,16 +1420,23 @@ class TypeMatcher(object):
         assert isinstance(transformation, TypeTransformation)
         self._transformations.append(transformation)
 
-    def register(self, name, type_handler):
+    def register(self, name, type_handler, short_name=False):
         """Register a new handler class for a given C type
 
         :param name: C type name
 
         :param type_handler: class to handle this C type
+
+        :param short_name: if True, the name lacks the scope of the
+           type, and gives way to a type that really has this name
         """
         name = ctypeparser.normalize_type_string(name)
-        if name in self._types:
+        if name in self._types and (short_name or name not in self._short_names):
             raise ValueError("return type %s already registered" % (name,))
+        if short_name:
+            self._short_names.add(name)
+        else:
+            self._short_names.discard(name)
         self._types[name] = type_handler
 
     def _raw_lookup_with_alias_support(self, name):
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 065821c..66162b9 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -48,7 +48,7 @@ class BoostSharedPtr(SmartPointerPolicy):
             cpp_class = cls
         cls.ThisClassSharedPtrParameter = ThisClassSharedPtrParameter
         try:
-            param_type_matcher.register(self.get_pointer_name(cls.full_name), cls.ThisClassSharedPtrParameter)
+            param_type_matcher.register(self.get_pointer_name(cls.full_name), cls.ThisClassSharedPtrParameter, short_name=True)
         except ValueError:
             pass
 
@@ -58,7 +58,7 @@ class BoostSharedPtr(SmartPointerPolicy):
             cpp_class = cls
         cls.ThisClassSharedPtrReturn = ThisClassSharedPtrReturn
         try:
-            return_type_matcher.register(self.get_pointer_name(cls.full_name), cls.ThisClassSharedPtrReturn)
+            return_type_matcher.register(self.get_pointer_name(cls.full_name), cls.ThisClassSharedPtrReturn, short_name=True)
         except ValueError:
             pass
 
-- 
2.43.0


From b592bc82807f0dee50b059cae887ae184c04434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:13 +0000
Subject: [PATCH 75/89] fix: classes named like types of the Python API
 (Object, List, Filter, ...) did not work

---
 pybindgen/container.py    |  2 +-
 pybindgen/cppclass.py     |  2 +-
 pybindgen/cppexception.py |  2 +-
 pybindgen/utils.py        | 39 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index f2a7e69..fb75caa 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -248,7 +248,7 @@ class Container(object):
             return ''.join([make_upper(utils.mangle_name(s)) for s in name.split('::')])
 
         self.mangled_name = flatten(self.name)
-        self.mangled_full_name = utils.mangle_name(self.full_name)
+        self.mangled_full_name = utils.get_c_type_name(utils.mangle_name(self.full_name))
 
         self._pystruct = "Py%s%s" % (prefix, self.mangled_full_name)
         self.pytypestruct = "Py%s%s_Type" % (prefix,  self.mangled_full_name)
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index cc3c231..02d8230 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1219,7 +1219,7 @@ class CppClass(object):
             return ''.join([make_upper(mangle(s)) for s in name.split('::')])
 
         self.mangled_name = flatten(self.name)
-        self.mangled_full_name = flatten(self.full_name)
+        self.mangled_full_name = utils.get_c_type_name(flatten(self.full_name))
 
         if self.template_parameters:
             self.full_name += "< %s >" % (', '.join(self.template_parameters))
diff --git a/pybindgen/cppexception.py b/pybindgen/cppexception.py
index 295157e..cb51bff 100644
--- a/pybindgen/cppexception.py
+++ b/pybindgen/cppexception.py
@@ -101,7 +101,7 @@ class CppException(object):
             return ''.join([make_upper(utils.mangle_name(s)) for s in name.split('::')])
 
         self.mangled_name = flatten(self.name)
-        self.mangled_full_name = utils.mangle_name(self.full_name)
+        self.mangled_full_name = utils.get_c_type_name(utils.mangle_name(self.full_name))
 
         if self.is_standard_error:
             self.pytypestruct = "PyExc_%s" % self.python_name
diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index 88c9d06..568949c 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -30,6 +30,45 @@ from pybindgen import settings
 import warnings
 
 
+## Names X such that PyX or PyX_Type is a type or an object of the Python C API
+PYTHON_API_TYPES = frozenset('''
+    ASCIIObject Arena AsyncGen AsyncGenASend AsyncGenObject AsyncMethods AttributeErrorObject
+    BaseExceptionGroupObject BaseExceptionObject BaseObject BaseString Bool Buffer BufferProcs
+    ByteArray ByteArrayIter ByteArrayObject Bytes BytesIter BytesObject CFunction
+    CFunctionObject CFunctionWithKeywords CMethod CMethodObject CObject CallIter Capsule Cell
+    CellObject Class ClassMethod ClassMethodDescr Code CodeAddressRange CodeEvent CodeObject
+    CompactUnicodeObject CompilerFlags Complex ComplexObject Config Context ContextToken
+    ContextVar Coro CoroObject CursesWindow CursesWindowObject DescrObject Dict DictItems
+    DictIterItem DictIterKey DictIterValue DictKeyEntry DictKeys DictKeysObject DictObject
+    DictOrValues DictProxy DictRevIterItem DictRevIterKey DictRevIterValue DictUnicodeEntry
+    DictValues Ellipsis Enum EnvironmentErrorObject Expat File Filter Float FloatObject Frame
+    FrameConstructor FrameObject FrameState FrozenSet Function FunctionObject FutureFeatures Gen
+    GenObject GetSetDef GetSetDescr GetSetDescrObject HamtIterator HamtIteratorState HamtNode
+    HamtObject HeapTypeObject ImportErrorObject Instance InstanceMethod InstanceMethodObject Int
+    InterpreterConfig InterpreterState List ListIter ListObject ListRevIter LockStatus Long
+    LongObject LongRangeIter Map MappingMethods MemAllocatorDomain MemAllocatorEx
+    MemAllocatorName MemberDef MemberDescr MemberDescrObject MemoryView MemoryViewObject Method
+    MethodDef MethodDescr MethodDescrObject MethodObject Module ModuleDef ModuleObject
+    NameErrorObject NumberMethods ODict ODictItems ODictIter ODictKeys ODictObject ODictValues
+    OSErrorObject Object ObjectArenaAllocator PickleBuffer PreConfig Property Range RangeIter
+    Reversed STEntry STEntryObject SendResult SeqIter SequenceMethods Set SetIter SetObject
+    Slice SliceObject StaticMethod Stats Status StdPrinter StopIterationObject String
+    StructSequence Super SyntaxErrorObject SystemExitObject ThreadState TraceBack
+    TracebackObject Tuple TupleIter TupleObject Type TypeObject Unicode UnicodeErrorObject
+    UnicodeIter UnicodeObject VarObject WeakReference WideStringList WindowsErrorObject
+    WrapperDescr WrapperDescrObject Zip
+'''.split())
+
+def get_c_type_name(name):
+    """
+    Change the name of a class if the C identifiers derived from it,
+    Py<name> and Py<name>_Type, would clash with those of the Python C API.
+    """
+    if name in PYTHON_API_TYPES:
+        name += '_'
+    return name
+
+
 def write_preamble(code_sink, min_python_version=None):
     """
     Write a preamble, containing includes, #define's and typedef's
-- 
2.43.0


From fb703c4b5ce3158c11d7d1144de03185450f4fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 76/89] fix: overloads with conflicting docstrings were not
 given to the error handler

---
 pybindgen/cppclass.py | 10 +++++-----
 pybindgen/module.py   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 02d8230..a608d42 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2451,10 +2451,10 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
             try:
                 utils.call_with_error_handling(overload.generate, (code_sink,), {}, overload)
+                code_sink.writeln()
+                method_defs.append(utils.call_with_error_handling(overload.get_py_method_def, (method_name,), {}, overload))
             except utils.SkipWrapper:
                 continue
-            code_sink.writeln()
-            method_defs.append(overload.get_py_method_def(method_name))
         return method_defs
 
     def _generate_methods(self, code_sink, parent_caller_methods):
@@ -2465,11 +2465,11 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
             #overload.generate(code_sink)
             try:
                 utils.call_with_error_handling(overload.generate, (code_sink,), {}, overload)
+                # skip methods registered via special type slots, not method table
+                if meth_name not in (['__call__'] + list(self.valid_sequence_methods)):
+                    method_defs.append(utils.call_with_error_handling(overload.get_py_method_def, (meth_name,), {}, overload))
             except utils.SkipWrapper:
                 continue
-            # skip methods registered via special type slots, not method table
-            if meth_name not in (['__call__'] + list(self.valid_sequence_methods)):
-                method_defs.append(overload.get_py_method_def(meth_name))
             code_sink.writeln()
         method_defs.extend(parent_caller_methods)
 
diff --git a/pybindgen/module.py b/pybindgen/module.py
index 0e57bc6..e95f560 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -735,11 +735,11 @@ class ModuleBase(dict):
                     continue
                 try:
                     utils.call_with_error_handling(overload.generate_declaration, (main_sink,), {}, overload)
+                    py_method_defs.append(utils.call_with_error_handling(overload.get_py_method_def, (func_name,), {}, overload))
                 except utils.SkipWrapper:
                     continue
                 
                 sink.writeln()
-                py_method_defs.append(overload.get_py_method_def(func_name))
                 del sink
 
         ## generate the function table
-- 
2.43.0


From 13365c432fc0b80fc4ce6fa9cd8f760fc9d962a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 77/89] fix: a virtual method without a result that cannot be
 wrapped raised TypeError instead of being skipped

---
 pybindgen/cppmethod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 996a4c6..63cd5c4 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -543,7 +543,8 @@ class CppDummyMethod(CppMethod):
     """
 
     def __init__(self, method_name, return_value, parameters, *args, **kwargs):
-        return_value = DummyReturnValue(return_value)
+        if return_value is not None: # None: returns nothing, as in CppMethod
+            return_value = DummyReturnValue(return_value)
         parameters = [DummyParameter(p) for p in parameters]
         super(CppDummyMethod, self).__init__(method_name, return_value, parameters, *args, **kwargs)
 
-- 
2.43.0


From 17415002eb06b1adf0e633ca074d78a762ad5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:52 +0000
Subject: [PATCH 78/89] fix: custodian/ward relations were lost or raised
 SystemError (wards that compare equal, subclasses with __getattr__, instances
 without dictionary)

---
 pybindgen/cppclass.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index a608d42..fe4a487 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -4038,24 +4038,36 @@ def scan_custodians_and_wards(wrapper):
 
 
 
-def _add_ward(code_block, custodian, ward):
+def _add_ward(code_block, custodian, ward, failure_cleanup=None):
     wards = code_block.declare_variable(
         'PyObject*', 'wards', 'NULL')
+    wards_name = code_block.declare_variable(
+        'PyObject*', 'wards_name', 'NULL')
     # there is no custodian when a NULL pointer was passed or returned
     code_block.write_code("if (%(custodian)s && %(custodian)s != Py_None) {" % vars())
     code_block.indent()
+    # not PyObject_GetAttr: a subclass may define __getattr__ or __setattr__
     code_block.write_code(
-        "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
-        % vars())
-    code_block.write_code(
+        "%(wards_name)s = Py_BuildValue((char *) \"s\", \"__wards__\");\n"
+        "%(wards)s = PyObject_GenericGetAttr(%(custodian)s, %(wards_name)s);\n"
         "if (%(wards)s == NULL) {\n"
         "    PyErr_Clear();\n"
         "    %(wards)s = PyList_New(0);\n"
-        "    PyObject_SetAttrString(%(custodian)s, (char *) \"__wards__\", %(wards)s);\n"
-        "}" % vars())
+        "    if (PyObject_GenericSetAttr(%(custodian)s, %(wards_name)s, %(wards)s) != 0) {\n"
+        "        Py_CLEAR(%(wards)s);\n"
+        "    }\n"
+        "}\n"
+        "Py_DECREF(%(wards_name)s);" % vars())
+    # fails if instances of the custodian's class have no dictionary (allow_subclassing=False)
+    code_block.write_error_check("%s == NULL" % wards, failure_cleanup)
+    # not PySequence_Contains: two wards may be equal
     code_block.write_code(
-        "if (%(ward)s && !PySequence_Contains(%(wards)s, %(ward)s))\n"
-        "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
+        "if (%(ward)s) {\n"
+        "    Py_ssize_t ward_pos = PyList_GET_SIZE(%(wards)s);\n"
+        "    while (--ward_pos >= 0 && PyList_GET_ITEM(%(wards)s, ward_pos) != %(ward)s);\n"
+        "    if (ward_pos < 0)\n"
+        "        PyList_Append(%(wards)s, %(ward)s);\n"
+        "}" % dict(wards=wards, ward=ward))
     code_block.unindent()
     code_block.write_code("}")
     code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
@@ -4081,10 +4093,13 @@ def implement_parameter_custodians_precall(wrapper):
 
 
 def implement_parameter_custodians_postcall(wrapper):
+    # on failure the return value object is not returned
+    retval = getattr(wrapper.return_value, 'py_name', None)
     for custodian, ward, postcall in wrapper.custodians_and_wards:
         if postcall:
             _add_ward(wrapper.after_call,
                       _get_custodian_or_ward(wrapper, custodian),
-                      _get_custodian_or_ward(wrapper, ward))
+                      _get_custodian_or_ward(wrapper, ward),
+                      retval and "Py_XDECREF(%s);" % retval)
 
 
-- 
2.43.0


From e980dfd16ab2fe8381acda9109e01c8612af79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:04 +0000
Subject: [PATCH 79/89] fix: functions added as methods of two classes under
 one name, and methods inherited from several parents (relations, functions as
 methods)

---
 pybindgen/cppclass.py  |  4 +++-
 pybindgen/cppmethod.py |  1 +
 pybindgen/function.py  | 18 +++++++++++++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index fe4a487..5e9aaab 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1471,7 +1471,7 @@ public:
             method.module = self.module
             method.is_virtual = False
             method.is_pure_virtual = False
-            method.self_parameter_pystruct = self.pystruct
+            method.set_method_of(self)
             method.visibility = 'public'
             method.force_parse = method.PARSE_TUPLE_AND_KEYWORDS
         else:
@@ -2435,6 +2435,8 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
                     wrapper = parent_wrapper.clone()
                     wrapper.original_class = base
                     wrapper.class_ = self
+                    if isinstance(wrapper, function.Function):
+                        wrapper.set_method_of(self)
                     overload.add(wrapper)
 
         method_defs = []
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 63cd5c4..da0b68f 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -228,6 +228,7 @@ class CppMethod(ForwardWrapperBase):
         meth.docstring = self.docstring
         meth.wrapper_base_name = self.wrapper_base_name
         meth.wrapper_actual_name = self.wrapper_actual_name
+        meth.custodians_and_wards = list(self.custodians_and_wards)
         return meth
 
     def set_class(self, class_):
diff --git a/pybindgen/function.py b/pybindgen/function.py
index a9f66e4..306eb3a 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -116,15 +116,31 @@ class Function(ForwardWrapperBase):
                         self.return_value,
                         [copy(param) for param in self.parameters],
                         docstring=self.docstring,
-                        custom_name=self.custom_name)
+                        unblock_threads=self.unblock_threads,
+                        template_parameters=self.template_parameters,
+                        custom_name=self.custom_name,
+                        deprecated=self.deprecated,
+                        foreign_cpp_namespace=self.foreign_cpp_namespace)
         func._module = self._module
         func.wrapper_base_name = self.wrapper_base_name
         func.wrapper_actual_name = self.wrapper_actual_name
         func.throw = list(self.throw)
         func.custodians_and_wards = list(self.custodians_and_wards)
+        func.self_parameter_pystruct = self.self_parameter_pystruct
+        func.force_parse = self.force_parse
 
         return func
 
+    def set_method_of(self, class_):
+        """
+        Makes the function a method of the given class: the wrapper receives the
+        instance, and is named after the class, like the wrapper of a method.
+
+        :param class_: a L{CppClass} instance
+        """
+        self.self_parameter_pystruct = class_.pystruct
+        self.wrapper_base_name = "_wrap_%s_%s" % (class_.pystruct, self.mangled_name)
+
     def add_custodian_and_ward(self, custodian, ward, postcall=None):
         """Add a custodian/ward relationship to the function wrapper
 
-- 
2.43.0


From a9f22c9e00bc4e86defe561ddba67171b75c9d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:12 +0000
Subject: [PATCH 80/89] fix: integer types under every spelling (pygccxml's
 'short unsigned int' parameters were not wrapped)

---
 pybindgen/typehandlers/inttype.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index cf5871a..5e6f1cf 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -29,7 +29,7 @@ class IntParam(Parameter):
 class UnsignedIntParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN]
-    CTYPES = ['unsigned int', 'uint32_t']
+    CTYPES = ['unsigned int', 'uint32_t', 'unsigned']
 
     def convert_c_to_python(self, wrapper):
         assert isinstance(wrapper, ReverseWrapperBase)
@@ -45,7 +45,7 @@ class UnsignedIntParam(Parameter):
 class UnsignedIntPtrParam(PointerParameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT, Parameter.DIRECTION_INOUT]
-    CTYPES = ['unsigned int*', 'uint32_t*']
+    CTYPES = ['unsigned int*', 'uint32_t*', 'unsigned*']
 
     def __init__(self, ctype, name, direction=Parameter.DIRECTION_IN, is_const=False,
                  default_value=None, transfer_ownership=False, array_length=None):
@@ -129,7 +129,7 @@ class IntReturn(ReturnValue):
 
 class UnsignedIntReturn(ReturnValue):
 
-    CTYPES = ['unsigned int', 'uint32_t']
+    CTYPES = ['unsigned int', 'uint32_t', 'unsigned']
 
     def get_c_error_return(self):
         return "return 0;"
@@ -145,7 +145,7 @@ class IntPtrParam(PointerParameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT,
                   Parameter.DIRECTION_IN|Parameter.DIRECTION_OUT]
-    CTYPES = ['int*']
+    CTYPES = ['int*', 'int32_t*']
 
     def __init__(self, ctype, name, direction=None, is_const=None, transfer_ownership=None, default_value=None):
         if direction is None:
@@ -207,7 +207,7 @@ class IntRefParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT,
                   Parameter.DIRECTION_IN|Parameter.DIRECTION_OUT]
-    CTYPES = ['int&']
+    CTYPES = ['int&', 'int32_t&']
     
     def convert_c_to_python(self, wrapper):
         if self.direction & self.DIRECTION_IN:
@@ -228,7 +228,7 @@ class UnsignedIntRefParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT,
                   Parameter.DIRECTION_IN|Parameter.DIRECTION_OUT]
-    CTYPES = ['unsigned int&', 'unsigned &']
+    CTYPES = ['unsigned int&', 'unsigned &', 'uint32_t&']
     
     def convert_c_to_python(self, wrapper):
         if self.direction & self.DIRECTION_IN:
@@ -249,7 +249,7 @@ class UnsignedIntRefParam(Parameter):
 
 class UInt16Return(ReturnValue):
 
-    CTYPES = ['uint16_t', 'unsigned short', 'unsigned short int', 'short unsigned int']
+    CTYPES = ['uint16_t', 'unsigned short', 'unsigned short int', 'short unsigned int', 'short unsigned']
 
     def get_c_error_return(self):
         return "return 0;"
@@ -288,7 +288,7 @@ class Int16Return(ReturnValue):
 class UInt16Param(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN]
-    CTYPES = ['uint16_t', 'unsigned short', 'unsigned short int']
+    CTYPES = ['uint16_t', 'unsigned short', 'unsigned short int', 'short unsigned', 'short unsigned int']
 
     def convert_c_to_python(self, wrapper):
         assert isinstance(wrapper, ReverseWrapperBase)
@@ -467,7 +467,7 @@ class Int8RefParam(Parameter):
 
 class Int8Return(ReturnValue):
 
-    CTYPES = ['int8_t', 'signed char']
+    CTYPES = ['int8_t', 'signed char', 'char signed']
 
     def get_c_error_return(self):
         return "return 0;"
@@ -506,7 +506,7 @@ class UnsignedLongLongParam(Parameter):
 
 class UnsignedLongLongRefParam(UnsignedLongLongParam):
     DIRECTIONS = [Parameter.DIRECTION_IN]
-    CTYPES = ['unsigned long long&', 'uint64_t&', 'long long unsigned int&']
+    CTYPES = ['unsigned long long&', 'uint64_t&', 'long long unsigned int&', 'unsigned long long int&', 'long long unsigned&']
 
     def get_ctype_without_ref(self):
         assert self.type_traits.target is not None
@@ -514,7 +514,7 @@ class UnsignedLongLongRefParam(UnsignedLongLongParam):
 
 class UnsignedLongLongReturn(ReturnValue):
 
-    CTYPES = ['unsigned long long', 'uint64_t', 'long long unsigned int']
+    CTYPES = ['unsigned long long', 'uint64_t', 'long long unsigned int', 'unsigned long long int', 'long long unsigned']
 
     def get_c_error_return(self):
         return "return 0;"
@@ -554,7 +554,7 @@ class UnsignedLongRefParam(UnsignedLongParam):
 
 class UnsignedLongReturn(ReturnValue):
 
-    CTYPES = ['unsigned long', 'long unsigned int']
+    CTYPES = ['unsigned long', 'long unsigned int', 'unsigned long int', 'long unsigned']
 
     def get_c_error_return(self):
         return "return 0;"
@@ -593,7 +593,7 @@ class LongRefParam(LongParam):
 
 class LongReturn(ReturnValue):
 
-    CTYPES = ['signed long', 'long signed int', 'long', 'long int']
+    CTYPES = ['signed long', 'long signed int', 'long', 'long int', 'signed long int', 'long signed']
 
     def get_c_error_return(self):
         return "return 0;"
@@ -756,7 +756,7 @@ class UInt8PtrParam(PointerParameter):
 class UnsignedInt16PtrParam(PointerParameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT, Parameter.DIRECTION_INOUT]
-    CTYPES = ['unsigned short int*', 'uint16_t*']
+    CTYPES = ['unsigned short int*', 'uint16_t*', 'unsigned short*', 'short unsigned*', 'short unsigned int*']
 
     def __init__(self, ctype, name, direction=Parameter.DIRECTION_IN, is_const=False,
                  default_value=None, transfer_ownership=False):
-- 
2.43.0


From 5946bb939eb82fe6112e957d939d3c674b9e4e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:12 +0000
Subject: [PATCH 81/89] fix: castxml annotations of_class/is_constructor_of
 with module namespaces, functions as constructors in namespaces; scan hooks
 on Python 3.10 and later

---
 pybindgen/castxmlparser.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index e4e7d1d..5affe3c 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -52,7 +52,6 @@ from pygccxml.utils import find_xml_generator
 #from pygccxml.declarations.calldef import \
 #    destructor_t, constructor_t, member_function_t
 from pygccxml.declarations.variable import variable_t
-import collections
 
 import subprocess
 from cxxfilt import demangle
@@ -236,8 +235,11 @@ def normalize_name(decl_string):
 
 def normalize_class_name(class_name, module_namespace):
     class_name = utils.ascii(class_name)
-    if not class_name.startswith(module_namespace):
-        class_name = module_namespace + class_name
+    if not class_name.startswith('::'):
+        if module_namespace == '::':
+            class_name = '::' + class_name
+        elif not class_name.startswith(module_namespace + '::'):
+            class_name = module_namespace + '::' + class_name
     class_name = normalize_name(class_name)
     return class_name
 
@@ -633,7 +635,7 @@ class ModuleParser(object):
                                     methods are denoted by a annotation for a
                                     parameter named 'return'.
         """
-        if not isinstance(hook, collections.Callable):
+        if not callable(hook):
             raise TypeError("hook must be callable")
         self._pre_scan_hooks.append(hook)
 
@@ -652,7 +654,7 @@ class ModuleParser(object):
            - pybindgen_wrapper -- a pybindgen object that generates a wrapper,
                                 such as CppClass, Function, or CppMethod.
         """
-        if not isinstance(hook, collections.Callable):
+        if not callable(hook):
             raise TypeError("hook must be callable")
         self._post_scan_hooks.append(hook)
 
@@ -2370,6 +2372,7 @@ pybindgen.settings.error_handler = ErrorHandler()
             if is_constructor_of is not None:
                 #cpp_class = type_registry.find_class(is_constructor_of, (self.module_namespace_name or '::'))
                 cpp_class = root_module[normalize_class_name(is_constructor_of, (self.module_namespace_name or '::'))]
+                constructor_name = '::'.join(declarations.declaration_path(fun)[1:]) # fully qualified
 
                 pygen_sink = self._get_pygen_sink_for_definition(fun)
                 if pygen_sink:
@@ -2377,10 +2380,10 @@ pybindgen.settings.error_handler = ErrorHandler()
                         pygen_sink.writeln('## ' + global_annotations['pygen_comment'])
                     pygen_sink.writeln("root_module[%r].add_function_as_constructor(%s)" %
                                        (cpp_class.full_name,
-                                        ", ".join([repr(fun.name), retval_repr, arglist_repr]),))
+                                        ", ".join([repr(constructor_name), retval_repr, arglist_repr]),))
 
                 if params_ok:
-                    function_wrapper = cpp_class.add_function_as_constructor(fun.name, return_type, arguments)
+                    function_wrapper = cpp_class.add_function_as_constructor(constructor_name, return_type, arguments)
                     function_wrapper.castxml_definition = fun
 
                 continue
-- 
2.43.0


From ff11a952dc666e0dd383930465129d569d5e89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:07 +0000
Subject: [PATCH 82/89] fix: headers with bit-field members gave code that does
 not compile (castxml parser)

---
 pybindgen/castxmlparser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 5affe3c..6b06ba3 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -2140,6 +2140,13 @@ pybindgen.settings.error_handler = ErrorHandler()
                                            NotSupportedWarning, member.location.file_name, member.location.line)
                     continue
 
+                if getattr(member, 'bits', None):
+                    warnings.warn_explicit("Member variable %s of class %s will not be wrapped, "
+                                           "because wrapping bit-fields is not yet supported by pybindgen"
+                                           % (member.name, cls.partial_decl_string),
+                                           NotSupportedWarning, member.location.file_name, member.location.line)
+                    continue
+
                 return_type_spec = self.type_registry.lookup_return(member.decl_type, global_annotations)
 
                 ## pygen...
-- 
2.43.0


From e8c04e330e8316d1c1d09c7c98e17b89508b8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:06 +0000
Subject: [PATCH 83/89] fix: parameters named like something that the generated
 wrapper uses gave code that does not compile

---
 pybindgen/cppmethod.py         | 43 ++++++++++++++--
 pybindgen/typehandlers/base.py | 91 ++++++++++++++++++++++++++--------
 2 files changed, 109 insertions(+), 25 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index da0b68f..93495c1 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -7,7 +7,7 @@ import traceback
 from copy import copy
 
 from pybindgen.typehandlers.base import ForwardWrapperBase, ReverseWrapperBase, \
-    join_ctype_and_name, CodeGenerationError
+    join_ctype_and_name, CodeGenerationError, identifier_rx, get_type_identifiers
 from pybindgen.typehandlers.base import ReturnValue, Parameter
 from pybindgen.typehandlers import codesink
 from pybindgen import overloading
@@ -952,17 +952,18 @@ class CppVirtualMethodParentCaller(CppMethod):
         ## generate a '%s__parent_caller' method (static methods
         ## cannot "conquer" 'protected' access type, only regular
         ## instance methods).
+        names = ['_arg%i' % (i + 1) for i in range(len(self.parameters))] # that hide no type
         code_sink.writeln('inline %s %s__parent_caller(%s)' % (
                 self.return_value.ctype,
                 self.method_name,
-                ', '.join([join_ctype_and_name(param.ctype, param.name) for param in self.parameters])
+                ', '.join([join_ctype_and_name(param.ctype, name) for param, name in zip(self.parameters, names)])
                 ))
         if self.return_value.ctype == 'void':
             code_sink.writeln('{ %s::%s(%s); }' % (self.method.class_.full_name, self.method_name,
-                                                   ', '.join([param.name for param in self.parameters])))
+                                                   ', '.join(names)))
         else:
             code_sink.writeln('{ return %s::%s(%s); }' % (self.method.class_.full_name, self.method_name,
-                                                          ', '.join([param.name for param in self.parameters])))
+                                                          ', '.join(names)))
 
 
     def generate_call(self, class_=None):
@@ -1038,7 +1039,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
 
     def __init__(self, method):
         self.stack_where_defined = traceback.extract_stack()
-        super(CppVirtualMethodProxy, self).__init__(method.return_value, method.parameters)
+        super(CppVirtualMethodProxy, self).__init__(method.return_value, list(method.parameters))
         self.method_name = method.method_name
         self.method = method
         self._helper_class = None
@@ -1081,6 +1082,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         if self.method.throw:
             decl_post_modifiers += " throw (%s)" % (', '.join([ex.full_name for ex in self.method.throw]),)
 
+        self._rename_conflicting_parameters()
         params_list = ', '.join([join_ctype_and_name(param.ctype, param.name)
                                  for param in self.parameters])
         code_sink.writeln("virtual %s %s(%s)%s;" %
@@ -1088,6 +1090,32 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
                            decl_post_modifiers))
 
 
+    def _rename_conflicting_parameters(self):
+        """
+        Gives another name to the parameters that would hide something that
+        the proxy refers to, and keeps the names of the others for them.
+        """
+        names = get_type_identifiers([self.return_value] + self.parameters)
+        names.update(identifier_rx.findall(self.class_.full_name))
+        helper_class = self._helper_class.class_
+        names.update(identifier_rx.findall(helper_class.full_name))
+        names.update([self.class_.pystruct, helper_class.pystruct, self._helper_class.name,
+                      'm_pyself', 'm_pylent', 'm_pycalls',
+                      '__py_gil_state', 'retval', 'py_retval', 'py_method'])
+        param_names = set([param.name for param in self.parameters])
+        for index, param in enumerate(self.parameters):
+            if param.name not in names:
+                continue
+            new_name = param.name + '_'
+            while new_name in names or new_name in param_names:
+                new_name += '_'
+            param_names.add(new_name)
+            renamed = copy(param)
+            for attr in 'name', 'value', 'py_name':
+                if getattr(param, attr, None) == param.name:
+                    setattr(renamed, attr, new_name)
+            self.parameters[index] = renamed
+
     def generate(self, code_sink):
         """generates the proxy virtual method"""
         if self.method.is_const:
@@ -1098,6 +1126,11 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         if self.method.throw:
             decl_post_modifiers.append("throw (%s)" % (', '.join([ex.full_name for ex in self.method.throw]),))
 
+        self._rename_conflicting_parameters()
+        for param in self.parameters:
+            if param.name is not None:
+                self.declarations.reserve_variable(param.name)
+
         ## if the python subclass doesn't define a virtual method,
         ## just chain to parent class and don't do anything else
         call_params = ', '.join([param.name for param in self.parameters])
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 078be8d..2a88ff1 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -9,6 +9,7 @@ and base interfaces for wrapper generators.
 from pybindgen.typehandlers import codesink
 import warnings
 from pybindgen.typehandlers import ctypeparser
+import re
 import sys
 
 PY3 = (sys.version_info[0] >= 3)
@@ -425,6 +426,26 @@ class BuildValueParameters(object):
         return [cleanup for (dummy, dummy, cleanup) in self._build_value_items]
 
 
+identifier_rx = re.compile(r'[A-Za-z_]\w*')
+
+def get_type_identifiers(handlers):
+    """
+    :param handlers: parameters and return values (or None)
+    :return: a set of the identifiers used to refer to their types
+    """
+    names = set()
+    for handler in handlers:
+        if handler is None:
+            continue
+        names.update(identifier_rx.findall(handler.ctype or ''))
+        for attr in 'cpp_class', 'container_type':
+            type_ = getattr(handler, attr, None)
+            if type_ is not None:
+                names.update(identifier_rx.findall(type_.full_name or ''))
+                names.update(identifier_rx.findall(getattr(type_, '_pystruct', None) or ''))
+    return names
+
+
 class DeclarationsScope(object):
     """Manages variable declarations in a given scope."""
 
@@ -467,6 +488,28 @@ class DeclarationsScope(object):
         self._declarations = codesink.MemoryCodeSink()
         self.declared_variables.clear()
 
+    def _get_free_name(self, name):
+        """
+        Returns the name, with a number if it is taken, and marks it as taken.
+        """
+        num = self.declared_variables.get(name, 0) + 1
+        varname = name
+        if num > 1:
+            varname = "%s%i" % (name, num)
+            ## the numbered name may have been declared under that very name
+            while varname in self.declared_variables:
+                num += 1
+                varname = "%s%i" % (name, num)
+            self.declared_variables[varname] = 1
+        self.declared_variables[name] = num
+        return varname
+
+    def is_taken(self, name):
+        """
+        :return: True if a variable of that name was declared or reserved
+        """
+        return name in self.declared_variables
+
     def declare_variable(self, type_, name, initializer=None, array=None):
         """Add code to declare a variable. Returns the actual variable
         name used (uses 'name' as base, with a number in case of conflict.)
@@ -477,16 +520,7 @@ class DeclarationsScope(object):
         :param initializer: optional, value to initialize the variable with
         :param array: optional, array size specifiction, e.g. '[]', or '[100]'
         """
-        try:
-            num = self.declared_variables[name]
-        except KeyError:
-            num = 0
-        num += 1
-        self.declared_variables[name] = num
-        if num == 1:
-            varname = name
-        else:
-            varname = "%s%i" % (name, num)
+        varname = self._get_free_name(name)
         decl = join_ctype_and_name(type_, varname)
         if array is not None:
             decl += array
@@ -501,16 +535,7 @@ class DeclarationsScope(object):
         :param name: base name of the variable; actual name used can be
                 slightly different in case of name conflict.
         """
-        try:
-            num = self.declared_variables[name]
-        except KeyError:
-            num = 0
-        num += 1
-        self.declared_variables[name] = num
-        if num == 1:
-            varname = name
-        else:
-            varname = "%s%i" % (name, num)
+        varname = self._get_free_name(name)
         return varname
 
     def get_code_sink(self):
@@ -900,11 +925,37 @@ class ForwardWrapperBase(object):
         code_sink.writeln('}')
 
 
+    def _get_identifiers_used(self):
+        """
+        :return: a set of the names that the wrapper refers to, besides
+          those of its variables
+        """
+        names = get_type_identifiers([self.return_value] + self.parameters)
+        names.update(['self', 'dummy', 'return_exception'])
+        for attr in 'function_name', 'method_name':
+            names.update(identifier_rx.findall(getattr(self, attr, None) or ''))
+        for exc in getattr(self, 'throw', None) or ():
+            names.update(identifier_rx.findall(exc.full_name))
+        class_ = getattr(self, 'class_', None)
+        for helper_class in getattr(self, 'helper_class', None), getattr(class_, 'helper_class', None):
+            if helper_class is not None:
+                names.update([helper_class.name, helper_class.class_.pystruct])
+        if class_ is not None:
+            names.update(identifier_rx.findall(class_.full_name))
+            names.add(class_.pystruct)
+        return names
+
     def generate_body(self, code_sink, gen_call_params=()):
         """Generate the wrapper function body
         code_sink -- a CodeSink object that will receive the code
         """
 
+        ## the variables of the parameters are named after them, and must
+        ## not hide what the wrapper refers to
+        for name in sorted(self._get_identifiers_used()):
+            if not self.declarations.is_taken(name):
+                self.declarations.reserve_variable(name)
+
         self.py_thread_state = None
         if self.unblock_threads:
             py_thread_state = self.declarations.declare_variable("PyThreadState*", "py_thread_state", "NULL")
-- 
2.43.0


From 723262a6db8d455387aea62e38d160f347f0c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:06 +0000
Subject: [PATCH 84/89] fix: identifiers in the generated code collided for
 different C++ names

---
 pybindgen/container.py    |  4 ++++
 pybindgen/cppattribute.py | 12 ++++--------
 pybindgen/cppclass.py     | 27 +++++++++++++++++++++++++++
 pybindgen/cppexception.py |  4 ++++
 pybindgen/cppmethod.py    |  3 +--
 pybindgen/function.py     |  6 +++---
 pybindgen/module.py       | 22 ++++++++++++++++++++++
 pybindgen/overloading.py  |  4 ++++
 8 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index fb75caa..f5556f8 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -250,6 +250,10 @@ class Container(object):
         self.mangled_name = flatten(self.name)
         self.mangled_full_name = utils.get_c_type_name(utils.mangle_name(self.full_name))
 
+        self.mangled_full_name = self._module.get_unique_c_name(
+            self, self.mangled_full_name,
+            lambda name: ["Py%s%s" % (prefix, name), "Py%s%sIter" % (prefix, name)])
+
         self._pystruct = "Py%s%s" % (prefix, self.mangled_full_name)
         self.pytypestruct = "Py%s%s_Type" % (prefix,  self.mangled_full_name)
 
diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 03de4e8..152fd51 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -71,8 +71,7 @@ class CppInstanceAttributeGetter(PyGetter):
         self.class_ = class_
         self.attribute_name = attribute_name
         self.getter = getter
-        self.c_function_name = "_wrap_%s__get_%s" % (self.class_.pystruct,
-                                                     self.attribute_name)
+        self.c_function_name = self.class_.get_attribute_wrapper_name('get', self.attribute_name)
         if self.getter is None:
             value_type.value = "self->obj->%s" % self.attribute_name
         else:
@@ -111,8 +110,7 @@ class CppStaticAttributeGetter(PyGetter):
             value_type, [], "return NULL;", "return NULL;", no_c_retval=True)
         self.class_ = class_
         self.attribute_name = attribute_name
-        self.c_function_name = "_wrap_%s__get_%s" % (self.class_.pystruct,
-                                                     self.attribute_name)
+        self.c_function_name = self.class_.get_attribute_wrapper_name('get', self.attribute_name)
         value_type.value = "%s::%s" % (self.class_.full_name, self.attribute_name)
 
     def generate_call(self):
@@ -153,8 +151,7 @@ class CppInstanceAttributeSetter(PySetter):
         self.class_ = class_
         self.attribute_name = attribute_name
         self.setter = setter
-        self.c_function_name = "_wrap_%s__set_%s" % (self.class_.pystruct,
-                                                     self.attribute_name)
+        self.c_function_name = self.class_.get_attribute_wrapper_name('set', self.attribute_name)
 
     def generate(self, code_sink):
         """
@@ -226,8 +223,7 @@ class CppStaticAttributeSetter(PySetter):
             value_type, [], "return -1;")
         self.class_ = class_
         self.attribute_name = attribute_name
-        self.c_function_name = "_wrap_%s__set_%s" % (self.class_.pystruct,
-                                                     self.attribute_name)
+        self.c_function_name = self.class_.get_attribute_wrapper_name('set', self.attribute_name)
         value_type.value =  "%s::%s" % (self.class_.full_name, self.attribute_name)
         value_type.REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
 
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 5e9aaab..1abe4d5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1,4 +1,5 @@
 
+import re
 import sys
 
 PY3 = (sys.version_info[0] >= 3)
@@ -1227,6 +1228,9 @@ class CppClass(object):
             self.mangled_name += mangled_template_params
             self.mangled_full_name += mangled_template_params
 
+        self.mangled_full_name = self._module.get_unique_c_name(
+            self, self.mangled_full_name, lambda name: ["Py%s%s" % (prefix, name)])
+
         self._pystruct = "Py%s%s" % (prefix, self.mangled_full_name)
         self.metaclass_name = "%sMeta" % self.mangled_full_name
         self.pytypestruct = "Py%s%s_Type" % (prefix,  self.mangled_full_name)
@@ -1242,6 +1246,26 @@ class CppClass(object):
         else:
             self.typeid_map_name = None
 
+    def get_method_wrapper_name(self, name):
+        """
+        Gets the name of the C function that wraps the method(s) of the given name.
+        """
+        wrapper_name = "_wrap_%s_%s" % (self.pystruct, name)
+        if re.search(r'__(tp_[a-z]+|copy__)$', wrapper_name):
+            # the functions of the type slots are named like this, of this class or another
+            wrapper_name = "_wrap_%s_method_%s" % (self.pystruct, name)
+        return self._module.get_unique_c_name((self, name), wrapper_name)
+
+    def get_attribute_wrapper_name(self, accessor, attribute_name):
+        """
+        Gets the name of the C function that accesses an attribute.
+
+        :param accessor: 'get' or 'set'
+        """
+        return self._module.get_unique_c_name(
+            (self, accessor, attribute_name),
+            "_wrap_%s__%s_%s" % (self.pystruct, accessor, attribute_name))
+
     def register_alias(self, alias):
         """Re-register the class with another base name, in addition to any
         registrations that might have already been done."""
@@ -1901,6 +1925,9 @@ typedef struct {
         else:
             code_sink.writeln('extern PyTypeObject %s;' % (self.pytypestruct,))
             if not self.static_attributes.empty():
+                self.metaclass_name = self._module.get_unique_c_name(
+                    (self, 'metaclass'), self.metaclass_name,
+                    lambda name: ["Py%s%s" % (settings.name_prefix.capitalize(), name)])
                 code_sink.writeln('extern PyTypeObject Py%s_Type;' % (self.metaclass_name,))
 
         code_sink.writeln()
diff --git a/pybindgen/cppexception.py b/pybindgen/cppexception.py
index cb51bff..53938af 100644
--- a/pybindgen/cppexception.py
+++ b/pybindgen/cppexception.py
@@ -103,6 +103,10 @@ class CppException(object):
         self.mangled_name = flatten(self.name)
         self.mangled_full_name = utils.get_c_type_name(utils.mangle_name(self.full_name))
 
+        if not self.is_standard_error:
+            self.mangled_full_name = self._module.get_unique_c_name(
+                self, self.mangled_full_name, lambda name: ["Py%s%s" % (prefix, name)])
+
         if self.is_standard_error:
             self.pytypestruct = "PyExc_%s" % self.python_name
         else:
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 93495c1..e630536 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -234,8 +234,7 @@ class CppMethod(ForwardWrapperBase):
     def set_class(self, class_):
         """set the class object this method belongs to"""
         self._class = class_
-        self.wrapper_base_name = "_wrap_%s_%s" % (
-            class_.pystruct, self.mangled_name)
+        self.wrapper_base_name = class_.get_method_wrapper_name(self.mangled_name)
     def get_class(self):
         """get the class object this method belongs to"""
         return self._class
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 306eb3a..394e74f 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -139,7 +139,7 @@ class Function(ForwardWrapperBase):
         :param class_: a L{CppClass} instance
         """
         self.self_parameter_pystruct = class_.pystruct
-        self.wrapper_base_name = "_wrap_%s_%s" % (class_.pystruct, self.mangled_name)
+        self.wrapper_base_name = class_.get_method_wrapper_name(self.mangled_name)
 
     def add_custodian_and_ward(self, custodian, ward, postcall=None):
         """Add a custodian/ward relationship to the function wrapper
@@ -186,8 +186,8 @@ class Function(ForwardWrapperBase):
     def set_module(self, module):
         """Set the Module object this function belongs to"""
         self._module = module
-        self.wrapper_base_name = "_wrap_%s_%s" % (
-            module.prefix, self.mangled_name)
+        self.wrapper_base_name = module.get_unique_c_name(
+            (module, self.mangled_name), "_wrap_%s_%s" % (module.prefix, self.mangled_name))
     module = property(get_module, set_module)
 
     def generate_call(self):
diff --git a/pybindgen/module.py b/pybindgen/module.py
index e95f560..7c217f5 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -229,6 +229,7 @@ class ModuleBase(dict):
         self._forward_declarations_declared = False
 
         self.cpp_namespace = cpp_namespace
+        self._c_names = {} # (only in the root module) C identifier -> owner
         if self.parent is None:
             error_return = 'return MOD_ERROR;'
             self.after_forward_declarations = MemoryCodeSink()
@@ -336,6 +337,27 @@ class ModuleBase(dict):
             root = root.parent
         return root
 
+    def get_unique_c_name(self, owner, name, get_identifiers=lambda name: [name]):
+        """
+        Gets a name for C identifiers that no other owner uses in the
+        generated code; different C++ names may be mangled into the same one.
+
+        :param owner: what the identifiers are for
+        :param name: the preferred name; it gets a number if it is taken
+        :param get_identifiers: a function giving the list of
+                identifiers derived from a name
+        """
+        c_names = self.get_root()._c_names
+        unique_name = name
+        number = 1
+        while [ident for ident in get_identifiers(unique_name)
+               if c_names.get(ident, owner) != owner]:
+            number += 1
+            unique_name = "%s_%i" % (name, number)
+        for ident in get_identifiers(unique_name):
+            c_names[ident] = owner
+        return unique_name
+
     def set_strip_prefix(self, prefix):
         """Sets the prefix string to be used when transforming a C
         function name into the python function name; the given prefix
diff --git a/pybindgen/overloading.py b/pybindgen/overloading.py
index 186e435..51f0bf3 100644
--- a/pybindgen/overloading.py
+++ b/pybindgen/overloading.py
@@ -177,6 +177,10 @@ class OverloadedWrapper(object):
 }
 %s""" % (self.ERROR_RETURN,)
                 wrapper_name = "%s__%i" % (self.wrapper_actual_name, number)
+                scope = getattr(wrapper, 'class_', None) or wrapper
+                module = getattr(scope, 'module', None)
+                if module is not None:
+                    wrapper_name = module.get_unique_c_name(wrapper, wrapper_name)
                 wrapper.set_parse_error_return(error_return)
                 code_sink.writeln()
 
-- 
2.43.0


From fbe857d5733583761cc8f856aba7076c864c8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:25 +0000
Subject: [PATCH 85/89] fix: annotations of the parameters of constructors were
 ignored (castxml parser)

---
 pybindgen/castxmlparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 6b06ba3..eecaff7 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -2070,6 +2070,7 @@ pybindgen.settings.error_handler = ErrorHandler()
                 argument_specs = []
                 for arg in member.arguments:
                     argument_specs.append(self.type_registry.lookup_parameter(arg.decl_type, arg.name,
+                                                                              parameter_annotations.get(arg.name, {}),
                                                                               default_value=arg.default_value))
 
                 arglist_repr = ("[" + ', '.join([_pygen_param(args_, kwargs_) for (args_, kwargs_) in argument_specs]) +  "]")
-- 
2.43.0


From f9805fde37c5e488180ddee69f0a4da8130a5bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:14 +0000
Subject: [PATCH 86/89] fix: one container of objects that cannot be copied
 stopped the generation of the whole module

The container, and what takes or returns one, are left out through the
error handler, like everything else that is not supported.
---
 pybindgen/container.py | 24 +++++++++++++++++++++++-
 pybindgen/module.py    |  9 +++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index f5556f8..b2f243e 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -6,13 +6,14 @@ Wrap C++ STL containers
 
 from .typehandlers.base import ForwardWrapperBase, ReverseWrapperBase, \
     Parameter, ReturnValue, param_type_matcher, return_type_matcher, \
-    TypeConfigurationError, NotSupportedError
+    TypeConfigurationError, NotSupportedError, CodeGenerationError
 
 from pybindgen.typehandlers import codesink
 from pybindgen.pytypeobject import PyTypeObject
 from .typehandlers.ctypeparser import TypeTraits
 from . import settings
 from . import utils
+from .cppclass import CppClassReturnValue
 
 
 class IterNextWrapper(ForwardWrapperBase):
@@ -267,6 +268,20 @@ class Container(object):
             self.ThisContainerReturn(self.full_name))
 
 
+    def check_supported(self):
+        """
+        Check that the items of the container can be converted, which
+        takes copying them; raises CodeGenerationError if they cannot
+        be, and then neither the container nor anything that takes or
+        returns one can be wrapped.
+        """
+        for item_type in (self.key_type, self.value_type):
+            if isinstance(item_type, ContainerReturnValueBase):
+                item_type.container_type.check_supported()
+            elif isinstance(item_type, CppClassReturnValue) and not item_type.cpp_class.has_copy_constructor:
+                raise CodeGenerationError("Class {0}, of the items of {1}, cannot be copied".format(
+                    item_type.cpp_class.full_name, self.full_name))
+
     def register_alias(self, alias):
         """Re-register the class with another base name, in addition to any
         registrations that might have already been done."""
@@ -688,6 +703,7 @@ class ContainerParameter(ContainerParameterBase):
         "parses python args to get C++ value"
         assert isinstance(wrapper, ForwardWrapperBase)
         assert isinstance(self.container_type, Container)
+        self.container_type.check_supported()
 
         assert self.default_value is None, "default value not implemented for containers"
 
@@ -700,6 +716,7 @@ class ContainerParameter(ContainerParameterBase):
     def convert_c_to_python(self, wrapper):
         '''Write some code before calling the Python method.'''
         assert isinstance(wrapper, ReverseWrapperBase)
+        self.container_type.check_supported()
 
         self.py_name = wrapper.declarations.declare_variable(
             self.container_type.pystruct+'*', 'py_'+self.container_type.name)
@@ -722,6 +739,7 @@ class ContainerRefParameter(ContainerParameterBase):
         "parses python args to get C++ value"
         assert isinstance(wrapper, ForwardWrapperBase)
         assert isinstance(self.container_type, Container)
+        self.container_type.check_supported()
 
         #assert self.default_value is None, "default value not implemented for containers"
 
@@ -747,6 +765,7 @@ class ContainerRefParameter(ContainerParameterBase):
     def convert_c_to_python(self, wrapper):
         '''Write some code before calling the Python method.'''
         assert isinstance(wrapper, ReverseWrapperBase)
+        self.container_type.check_supported()
 
         self.py_name = wrapper.declarations.declare_variable(
             self.container_type.pystruct+'*', 'py_'+self.container_type.name)
@@ -788,6 +807,7 @@ class ContainerPtrParameter(ContainerParameterBase):
         "parses python args to get C++ value"
         assert isinstance(wrapper, ForwardWrapperBase)
         assert isinstance(self.container_type, Container)
+        self.container_type.check_supported()
 
         assert self.default_value is None, "default value not implemented for containers"
 
@@ -862,6 +882,7 @@ class ContainerReturnValue(ContainerReturnValueBase):
 
     def convert_c_to_python(self, wrapper):
         """see ReturnValue.convert_c_to_python"""
+        self.container_type.check_supported()
 
         ctype_no_const_no_ref = self._get_noref_ctype()
         retval = wrapper.declarations.declare_variable(
@@ -881,6 +902,7 @@ class ContainerReturnValue(ContainerReturnValueBase):
 
     def convert_python_to_c(self, wrapper):
         """see ReturnValue.convert_python_to_c"""
+        self.container_type.check_supported()
         if '&' in self.ctype:
             raise NotSupportedError("reference return type not supported")
         retval = wrapper.declarations.declare_variable(self.ctype, 'retval')
diff --git a/pybindgen/module.py b/pybindgen/module.py
index 7c217f5..08b2cc0 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -657,8 +657,13 @@ class ModuleBase(dict):
         for class_ in [c for c in self.classes if not c.import_from_module]:
             class_.generate_forward_declarations(code_sink, self)
 
-        for container in self.containers:
-            container.generate_forward_declarations(code_sink, self)
+        for container in list(self.containers):
+            try:
+                utils.call_with_error_handling(container.check_supported, (), {}, container)
+            except utils.SkipWrapper:
+                self.containers.remove(container)
+            else:
+                container.generate_forward_declarations(code_sink, self)
         for exc in self.exceptions:
             exc.generate_forward_declarations(code_sink, self)
         ## recurse to submodules
-- 
2.43.0


From a5c01fe84490244a8c0d0d9102b643e1d6880106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:53 +0000
Subject: [PATCH 87/89] fix: the annotation caller_owns_return was reported as
 an invalid annotation

---
 pybindgen/castxmlparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index eecaff7..4a76bb2 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -350,7 +350,7 @@ class GccXmlTypeRegistry(object):
         for name, value in annotations.items():
             if name == 'caller_owns_return':
                 kwargs['caller_owns_return'] = annotations_scanner.parse_boolean(value)
-            if name == 'free_after_copy':
+            elif name == 'free_after_copy':
                 kwargs['free_after_copy'] = annotations_scanner.parse_boolean(value)
             elif name == 'reference_existing_object':
                 kwargs['reference_existing_object'] = annotations_scanner.parse_boolean(value)
-- 
2.43.0


From af112dac177af42448355781246479f08d7d6bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:53 +0000
Subject: [PATCH 88/89] fix: the annotation default_value was ignored for
 parameters with a default value in C++

---
 pybindgen/castxmlparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 4a76bb2..ad81a80 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -391,7 +391,7 @@ class GccXmlTypeRegistry(object):
                 warnings.warn("invalid annotation name %r" % name, AnnotationsWarning)
 
         if default_value:
-            kwargs['default_value'] = utils.ascii(default_value)
+            kwargs.setdefault('default_value', utils.ascii(default_value))
 
         cpp_type = normalize_name(type_info.partial_decl_string)
 
-- 
2.43.0


From 7f0fef7bdaabd61b7faaaf59f0d9c4259fdf9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:53 +0000
Subject: [PATCH 89/89] fix: annotations at the end of a header applied to a
 declaration at its start

---
 pybindgen/castxmlparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index ad81a80..c46f41d 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -442,7 +442,7 @@ class AnnotationsScanner(object):
         line_number -= 2
         global_annotations = {}
         parameter_annotations = {}
-        while 1:
+        while line_number >= 0:
             line = lines[line_number]
             line_number -= 1
             m = self._comment_rx.match(line)
-- 
2.43.0

