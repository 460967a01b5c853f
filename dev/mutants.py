M = []
VM = 'src/jnivm/vm.cpp'
def bug(name, props, *edits): M.append({'name': name, 'kind': 'bug', 'props': props.split(), 'edits': list(edits)})
def ref(name, props, *edits): M.append({'name': name, 'kind': 'ref', 'props': props.split(), 'edits': list(edits)})

# ---- C06
bug('pop-no-recreate', 'C06', (VM, 'nenv.localframe.emplace_front();\n\t}\n\t// Add', '}\n\t// Add'))
bug('pop-no-clear', 'C06', (VM, 'nenv.localframe.front().clear();', ''))
bug('pop-late-cast', 'C06', (VM, '''	auto res = JNITypes<std::shared_ptr<Object>>::JNICast(&nenv, result);
''', ''), (VM, '	// Add result to previous frame\n', '	auto res = JNITypes<std::shared_ptr<Object>>::JNICast(&nenv, result);\n'))
bug('pop-result-early', 'C06', (VM, '	// Clear current Frame and move to freelist\n', '	if(res) JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);\n'),
    (VM, 'return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);\n\t}\n#endif\n\treturn result;', 'return result;\n\t}\n#endif\n\treturn result;'))
bug('push-no-new', 'C06', (VM, 'if(nenv.freeframes.empty()) {\n\t\tnenv.localframe.emplace_front();', 'if(nenv.freeframes.empty()) {\n\t\tif(cap) nenv.localframe.emplace_front();'))
bug('newlocal-last-frame', 'C06', ('include/jnivm/jnitypes.h', 'env->localframe.front().push_back(std::move(obj));', '{ auto it = env->localframe.begin(); for(auto n = it; n != env->localframe.end(); ++n) it = n; it->push_back(std::move(obj)); }'))
ref('pop-helper', 'C06', (VM, 'jint PushLocalFrame(', '''static void dropFrame(ENV& e) {
	auto& top = e.localframe.front();
	top.clear();
	e.freeframes.splice_after(e.freeframes.before_begin(), e.localframe, e.localframe.before_begin());
	bool none = e.localframe.empty();
	if(!none) return;
	e.localframe.emplace_front();
}
jint PushLocalFrame('''), (VM, '''	nenv.localframe.front().clear();
	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), nenv.localframe, nenv.localframe.before_begin());
	if(nenv.localframe.empty()) {
		LOG("JNIVM", "Freed top level frame of this ENV, recreate it");
		nenv.localframe.emplace_front();
	}
''', '\tdropFrame(nenv);\n'))
ref('pop-popfront', 'C06', (VM, '''	nenv.localframe.front().clear();
	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), nenv.localframe, nenv.localframe.before_begin());
	if(nenv.localframe.empty()) {''', '''	nenv.localframe.pop_front();
	if(nenv.localframe.begin() == nenv.localframe.end()) {'''))

# ---- C19
bug('monitor-enter-try', 'C19', (VM, "lock.lock.lock();", "lock.lock.try_lock();"))
bug('monitor-exit-noop-class', 'C19', (VM, "	JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o)->lock.lock.unlock();\n\treturn 0;", "	auto ob = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o);\n\tif(dynamic_cast<Class*>(ob.get())) return 0;\n\tob->lock.lock.unlock();\n\treturn 0;"))
bug('monitor-raw-handle', 'C19', (VM, "JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o)->lock.lock.lock();", "((Object*)o)->lock.lock.lock();"))
bug('monitor-class-of', 'C19', (VM, "JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o)->lock.lock.unlock();", "JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o)->getClassInternal(ENV::FromJNIEnv(env))->lock.lock.unlock();"))
bug('clone-locks', 'C19', (VM, "	auto l = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), lobj);", "	auto l = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), lobj);\n\tif(l) l->lock.lock.lock();"))
bug('monitor-plain-mutex', 'C19', ('include/jnivm/object.h', 'std::recursive_mutex lock;', 'std::mutex lock;'))
ref('monitor-local', 'C19', (VM, "	JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o)->lock.lock.lock();\n", "	auto target = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o);\n\tstd::recursive_mutex& mon = target->lock.lock;\n\tmon.lock();\n"))
ref('monitor-helper', 'C19', (VM, "jint MonitorEnter(", "static std::recursive_mutex& monitorOf(JNIEnv* e, jobject o) { return JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(e), o)->lock.lock; }\njint MonitorEnter("), (VM, "	JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o)->lock.lock.unlock();", "	monitorOf(env, o).unlock();"))
ref('monitor-null-check', 'C19', (VM, "	JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o)->lock.lock.unlock();\n", "	auto ob = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o);\n\tif(!ob) return JNI_ERR;\n\tob->lock.lock.unlock();\n"))
# ---- C24
bug('throw-keeps-first', 'C24', (VM, "(ENV::FromJNIEnv(env))->current_exception = except ? except : nullptr;", "if(!(ENV::FromJNIEnv(env))->current_exception) (ENV::FromJNIEnv(env))->current_exception = except ? except : nullptr;"))
bug('thrownew-keeps-first', 'C24', (VM, "		(ENV::FromJNIEnv(env))->current_exception = th;", "		if(!(ENV::FromJNIEnv(env))->current_exception) (ENV::FromJNIEnv(env))->current_exception = th;"))
bug('describe-clears', 'C24', (VM, "			LOG(\"JNIVM\", \"Exception with Message `%s` was thrown\", ex.what());", "			LOG(\"JNIVM\", \"Exception with Message `%s` was thrown\", ex.what());\n\t\t\t(ENV::FromJNIEnv(env))->current_exception = nullptr;"))
bug('popframe-clears', 'C24', (VM, "	// Add result to previous frame\n", "	if(nenv.current_exception && !res) nenv.current_exception.reset();\n"))
bug('check-except-null', 'C24', (VM, "return (bool)(ENV::FromJNIEnv(env))->current_exception;", "return (ENV::FromJNIEnv(env))->current_exception && (ENV::FromJNIEnv(env))->current_exception->except == nullptr;"))
bug('invoke-native-nocheck', 'C24', ('include/jnivm/method.h', "    if((ENV::FromJNIEnv(&env))->current_exception) {", "    if(!native && (ENV::FromJNIEnv(&env))->current_exception) {"))
bug('invoke-rethrow-wrong', 'C24', ('include/jnivm/method.h', "std::rethrow_exception((ENV::FromJNIEnv(&env))->current_exception->except);", "throw std::runtime_error(\"pending\");"))
ref('throw-helper', 'C24', (VM, "jint Throw(JNIEnv *env,", "static void setPending(ENV* e, std::shared_ptr<Throwable> t) { e->current_exception = std::move(t); }\njint Throw(JNIEnv *env,"), (VM, "(ENV::FromJNIEnv(env))->current_exception = except ? except : nullptr;", "setPending(ENV::FromJNIEnv(env), except);"))
ref('thrownew-msg', 'C24', (VM, "	try {\n		throw std::runtime_error(message);\n	} catch(...) {\n		auto th = std::make_shared<Throwable>();\n		th->except = std::current_exception();\n		(ENV::FromJNIEnv(env))->current_exception = th;\n	}\n", "	auto th = std::make_shared<Throwable>();\n\ttry {\n\t\tstd::string text(message);\n		throw std::runtime_error(text);\n	} catch(...) {\n		th->except = std::current_exception();\n	}\n\tENV* e = ENV::FromJNIEnv(env);\n\te->current_exception = th;\n"))
ref('describe-local', 'C24', (VM, "	if((ENV::FromJNIEnv(env))->current_exception) {\n\t\ttry {\n\t\t\tstd::rethrow_exception((ENV::FromJNIEnv(env))->current_exception->except);", "	auto pending = (ENV::FromJNIEnv(env))->current_exception;\n\tif(pending) {\n\t\ttry {\n\t\t\tstd::rethrow_exception(pending->except);"))
ref('invoke-local', 'C24', ('include/jnivm/method.h', "    if((ENV::FromJNIEnv(&env))->current_exception) {\n        std::rethrow_exception((ENV::FromJNIEnv(&env))->current_exception->except);\n    }", "    auto&& pend = (ENV::FromJNIEnv(&env))->current_exception;\n    if(pend == nullptr) return ret;\n    std::rethrow_exception(pend->except);"))
ref('pop-helper-extern', 'C06', (VM, 'jint PushLocalFrame(', '''void dropFrame(ENV& e) {
	e.localframe.front().clear();
	e.freeframes.splice_after(e.freeframes.before_begin(), e.localframe, e.localframe.before_begin());
	if(e.localframe.empty()) e.localframe.emplace_front();
}
jint PushLocalFrame('''), (VM, '''	nenv.localframe.front().clear();
	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), nenv.localframe, nenv.localframe.before_begin());
	if(nenv.localframe.empty()) {
		LOG("JNIVM", "Freed top level frame of this ENV, recreate it");
		nenv.localframe.emplace_front();
	}
''', '\tdropFrame(nenv);\n'))
# ---- C08
bug('global-weak-holder', 'C08', ('include/jnivm/weak.h', "    class Global : public Extends<Object> {\n    public:\n        std::shared_ptr<Object> wrapped;", "    class Global : public Extends<Object> {\n    public:\n        std::weak_ptr<Object> wrapped;"), ('include/jnivm/jnitypes.h', 'return UnpackJObject<T>(global->wrapped.get());', 'return UnpackJObject<T>(global->wrapped.lock().get());'))
bug('delete-global-all', 'C08', (VM, "	if(f != fe) {\n\t\tnvm.globals.erase(f);", "	if(f != fe) {\n\t\tnvm.globals.erase(f, fe);"))
bug('delete-global-by-object', 'C08', (VM, "	DeleteGlobalRef(env, JNITypes<std::shared_ptr<Global>>::JNICast(ENV::FromJNIEnv(env), obj));", "	DeleteGlobalRef(env, JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj));"))
bug('delete-global-wrapped', 'C08', (VM, "	auto f = std::find(nvm.globals.begin(), fe, obj);\n", "	auto f = std::find_if(nvm.globals.begin(), fe, [&](auto&& o) { if(o == obj) return true; auto a = dynamic_cast<Global*>(o.get()); auto b = dynamic_cast<Global*>(obj.get()); return a && b && a->wrapped == b->wrapped; });\n"))
bug('delete-local-all-frames', 'C08', (VM, "			frame.erase(f);\n\t\t\treturn;", "			frame.erase(f);"))
bug('delete-local-first-frame', 'C08', (VM, "			frame.erase(f);\n\t\t\treturn;\n\t\t}", "			frame.erase(f);\n\t\t\treturn;\n\t\t}\n\t\tif(frame.size() > 64) return;"))
bug('weak-pins-frame', 'C08', (VM, "	weak->wrapped = strong;\n", "	weak->wrapped = strong;\n\t{ std::lock_guard<std::mutex> g{ENV::FromJNIEnv(env)->GetVM()->mtx}; ENV::FromJNIEnv(env)->GetVM()->globals.push_back(strong); }\n"))
bug('global-not-stored-twice', 'C08', (VM, "	nvm.globals.emplace_back(obj);", "	if(nvm.globals.size() < 512) nvm.globals.emplace_back(obj);"))
bug('exit-clears-globals', 'C08', ('src/jnivm/vm.cpp', "jint UnregisterNatives(JNIEnv *env, jclass c) {\n", "jint UnregisterNatives(JNIEnv *env, jclass c) {\n\tif(!c) ENV::FromJNIEnv(env)->GetVM()->globals.clear();\n"))
bug('dead-weak-throws', 'C08', ('include/jnivm/jnitypes.h', "            return UnpackJObject<T>(obj.get());\n        } else {\n            return nullptr;", "            return UnpackJObject<T>(obj.get());\n        } else {\n            throw 1;"))
ref('global-table-loop', 'C08,C05'.replace(',', ' '), (VM, '''	auto fe = nvm.globals.end();
	auto f = std::find(nvm.globals.begin(), fe, obj);
	if(f != fe) {
		nvm.globals.erase(f);
	} else {
		LOG("JNIVM", "Failed to delete Global Reference");
	}
''', '''	for(auto f = nvm.globals.begin(); f != nvm.globals.end(); ++f) {
		if(*f == obj) {
			nvm.globals.erase(f);
			return;
		}
	}
	LOG("JNIVM", "Failed to delete Global Reference");
'''))
ref('global-table-index', 'C08 C05', (VM, '''	auto fe = nvm.globals.end();
	auto f = std::find(nvm.globals.begin(), fe, obj);
	if(f != fe) {
		nvm.globals.erase(f);
	} else {
		LOG("JNIVM", "Failed to delete Global Reference");
	}
''', '''	size_t pos = 0;
	while(pos < nvm.globals.size() && nvm.globals[pos] != obj) ++pos;
	if(pos >= nvm.globals.size()) {
		LOG("JNIVM", "Failed to delete Global Reference");
		return;
	}
	nvm.globals.erase(nvm.globals.begin() + pos);
'''))
ref('local-delete-helper', 'C08', (VM, "void DeleteLocalRef(JNIEnv * env, std::shared_ptr<Object> obj) {\n", "bool eraseOne(std::vector<std::shared_ptr<Object>>& v, const std::shared_ptr<Object>& o) {\n\tauto it = std::find_if(v.begin(), v.end(), [&](const std::shared_ptr<Object>& x) { return x.get() == o.get(); });\n\tif(it == v.end()) return false;\n\tv.erase(it);\n\treturn true;\n}\nvoid DeleteLocalRef(JNIEnv * env, std::shared_ptr<Object> obj) {\n"),
 (VM, '''		auto fe = frame.end();
		auto f = std::find(frame.begin(), fe, obj);
		if(f != fe) {
			frame.erase(f);
			return;
		}
''', '		if(eraseOne(frame, obj)) return;\n'))
ref('global-wrap-helper', 'C08', (VM, "	global->wrapped = std::move(strong);", "	Global& g = *global;\n\tg.wrapped = strong;\n\tstrong.reset();"))
JT = 'include/jnivm/jnitypes.h'; AR = 'src/jnivm/internal/array.cpp'; ST = 'src/jnivm/internal/string.cpp'; ME = 'src/jnivm/internal/method.cpp'; FI = 'src/jnivm/internal/field.cpp'
# ---- C09
bug('unpack-no-global', 'C09', (JT, '''    if(global != nullptr) {
        return UnpackJObject<T>(global->wrapped.get());
    }
''', '    if(global != nullptr && global->wrapped.use_count() > 1) {\n        return UnpackJObject<T>(global->wrapped.get());\n    }\n'))
bug('unpack-static-cast', 'C09', (JT, 'auto ret = dynamic_cast<T*>(obj);\n    if(ret != nullptr) {\n        return std::shared_ptr<T>(ret->shared_from_this(), ret);\n    }\n    throw', 'if(obj->clazz.lock()) { auto o = obj->shared_from_this(); return std::shared_ptr<T>(o, (T*)(void*)obj); }\n    auto ret = dynamic_cast<T*>(obj);\n    if(ret != nullptr) {\n        return std::shared_ptr<T>(ret->shared_from_this(), ret);\n    }\n    throw'))
bug('reftype-swapped', 'C09', (VM, 'return jobjectRefType::JNIGlobalRefType;', 'return o->clazz.lock() ? jobjectRefType::JNIGlobalRefType : jobjectRefType::JNILocalRefType;'))
bug('issame-raw', 'C09', (VM, '	return l.get() == r.get();', '	return l.get() == r.get() || (!l && dynamic_cast<Weak*>((Object*)lobj));'))
bug('array-unpack-void', 'C09 C25', (AR, '    auto ja = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);\n    memcpy(buf, ja->getArray() + start, sizeof(T)* len);', '    auto ja = JNITypes<std::shared_ptr<Array<void>>>::JNICast(ENV::FromJNIEnv(env), a);\n    memcpy(buf, ((Array<T>*)ja.get())->getArray() + start, sizeof(T)* len);'))
bug('getclass-raw', 'C09', (VM, 'auto o = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo);', 'auto o = (Object*)jo;'))
bug('string-raw-class', 'C09', (VM, '	auto&& clazz = JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(ENV::FromJNIEnv(env), c);\n	if(!clazz) {\n		LOG("JNIVM", "UnRegisterNatives', '	auto&& clazz = (Class*)c;\n	if(!clazz) {\n		LOG("JNIVM", "UnRegisterNatives'))
ref('unpack-loop', 'C09 C08', (JT, '''    auto weak = dynamic_cast<jnivm::Weak*>(obj);
    if(weak != nullptr) {
        auto obj = weak->wrapped.lock();
        if(obj) {
            return UnpackJObject<T>(obj.get());
        } else {
            return nullptr;
        }
    }
    auto global = dynamic_cast<jnivm::Global*>(obj);
    if(global != nullptr) {
        return UnpackJObject<T>(global->wrapped.get());
    }
    auto ret = dynamic_cast<T*>(obj);
    if(ret != nullptr) {
        return std::shared_ptr<T>(ret->shared_from_this(), ret);
    }
    throw''', '''    if(auto global = dynamic_cast<jnivm::Global*>(obj)) {
        return UnpackJObject<T>(global->wrapped.get());
    }
    if(auto weak = dynamic_cast<jnivm::Weak*>(obj)) {
        std::shared_ptr<jnivm::Object> strong = weak->wrapped.lock();
        return strong ? UnpackJObject<T>(strong.get()) : nullptr;
    }
    if(auto ret = dynamic_cast<T*>(obj)) {
        return std::shared_ptr<T>(ret->shared_from_this(), ret);
    }
    throw'''))
ref('reftype-ternary', 'C09', (VM, '''	if(dynamic_cast<Weak*>(o)) {
		return jobjectRefType::JNIWeakGlobalRefType;
	} else if(dynamic_cast<Global*>(o)){
		return jobjectRefType::JNIGlobalRefType;
	}
	return jobjectRefType::JNILocalRefType;''', '''	bool global = dynamic_cast<Global*>(o) != nullptr;
	bool weak = dynamic_cast<Weak*>(o) != nullptr;
	return global ? JNIGlobalRefType : weak ? JNIWeakGlobalRefType : JNILocalRefType;'''))
ref('issame-helper', 'C09', (VM, 'jboolean IsSameObject(JNIEnv *env,', '''static Object* resolved(JNIEnv *env, jobject h) {
	return JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), h).get();
}
jboolean IsSameObject(JNIEnv *env,'''), (VM, '''	auto l = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), lobj);
	auto r = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), robj);
	return l.get() == r.get();''', '''	if(resolved(env, lobj) != resolved(env, robj)) {
		return JNI_FALSE;
	}
	return JNI_TRUE;'''))

# ---- C04
bug('detach-destroys-under-lock', 'C04', (VM, "					env = std::move(f->second);\n", ""))
bug('detach-reset-under-lock', 'C04', (VM, "					env = std::move(f->second);\n					nvm.jnienvs.erase(f);", "					env = std::move(f->second);\n					nvm.jnienvs.erase(f);\n					env.reset();"))
bug('manual-lock-early-return', 'C04', (VM, """	std::lock_guard<std::mutex> guard{nvm.mtx};
	auto fe = nvm.globals.end();
	auto f = std::find(nvm.globals.begin(), fe, obj);
	if(f != fe) {
		nvm.globals.erase(f);
	} else {
		LOG("JNIVM", "Failed to delete Global Reference");
	}""", """	nvm.mtx.lock();
	auto fe = nvm.globals.end();
	auto f = std::find(nvm.globals.begin(), fe, obj);
	if(f == fe) {
		LOG("JNIVM", "Failed to delete Global Reference");
		return;
	}
	nvm.globals.erase(f);
	nvm.mtx.unlock();"""))
bug('manual-lock-throwing', 'C04', (VM, """		std::lock_guard<std::mutex> lock(clazz->mtx);
		clazz->natives.clear();
		for(size_t i = 0; i < clazz->methods.size(); ++i) {
			if(clazz->methods[i]->native) {
				clazz->methods.erase(clazz->methods.begin() + i);
				--i;
			}
		}
""", """		clazz->mtx.lock();
		clazz->natives.clear();
		for(size_t i = 0; i < clazz->methods.size(); ++i) {
			if(clazz->methods.at(i)->native) {
				clazz->methods.erase(clazz->methods.begin() + i);
				--i;
			}
		}
		clazz->mtx.unlock();
"""))
bug('getmethodid-creates-under-lock-with-declare', 'C04', (ME, """            cur->methods.push_back(next);
        } else {""", """            cur->methods.push_back(next);
            if(AllowNative || isStatic) GetMethodID<isStatic, true, AllowNative, false>(env, cl, next->name.data(), next->signature.data());
        } else {"""))
bug('attach-relocks', 'C04', (VM, "				if(!nenv) {\n					nenv = nvm.CreateEnv();\n				}\n				if(penv) {\n					*penv = nenv->GetJNIEnv();", "				if(!nenv) {\n					nenv = nvm.CreateEnv();\n				}\n				if(penv) {\n					nenv->GetJNIEnv()->GetJavaVM(&vm);\n					*penv = nenv->GetJNIEnv();"))
bug('declare-under-vm-then-class', 'C04', (VM, """		std::lock_guard<std::mutex> guard(ENV::FromJNIEnv(env)->GetVM()->mtx);
		weak->clazz = InternalFindClass(ENV::FromJNIEnv(env), "java/lang/ref/WeakReference");""", """		std::lock_guard<std::mutex> guard(ENV::FromJNIEnv(env)->GetVM()->mtx);
		weak->clazz = InternalFindClass(ENV::FromJNIEnv(env), "java/lang/ref/WeakReference");
		std::lock_guard<std::mutex> members(strong->getClassInternal(ENV::FromJNIEnv(env))->mtx);"""))
bug('unlock-twice', 'C04', (VM, """	std::lock_guard<std::mutex> guard{nvm.mtx};
	auto fe = nvm.globals.end();""", """	std::lock_guard<std::mutex> guard{nvm.mtx};
	if(nvm.globals.empty()) { nvm.mtx.unlock(); return; }
	auto fe = nvm.globals.end();"""))
ref('detach-by-key', 'C04', (VM, """					env = std::move(f->second);
					nvm.jnienvs.erase(f);""", """					env = f->second;
					nvm.jnienvs.erase(pthread_self());"""))
ref('delete-global-unique-lock', 'C04 C08 C05', (VM, """	std::lock_guard<std::mutex> guard{nvm.mtx};
	auto fe = nvm.globals.end();
	auto f = std::find(nvm.globals.begin(), fe, obj);
	if(f != fe) {
		nvm.globals.erase(f);
	} else {
		LOG("JNIVM", "Failed to delete Global Reference");
	}""", """	std::unique_lock<std::mutex> guard(nvm.mtx);
	auto f = std::find(nvm.globals.begin(), nvm.globals.end(), obj);
	bool found = f != nvm.globals.end();
	if(found) nvm.globals.erase(f);
	guard.unlock();
	if(!found) {
		LOG("JNIVM", "Failed to delete Global Reference");
	}"""))
ref('getfieldid-bases-in-local', 'C04 C05', (FI, """            for(auto&& i : cur->baseclasses(ENV::FromJNIEnv(env))) {
                if(i) {
                    auto id""", """            auto bases = cur->baseclasses(ENV::FromJNIEnv(env));
            for(size_t k = 0; k < bases.size(); k++) {
                std::shared_ptr<Class> i = bases[k];
                if(i) {
                    auto id"""))
ref('getjavavm-deferred', 'C04 C05', (VM, """	if(vm) {
		std::lock_guard<std::mutex> lock((ENV::FromJNIEnv(env))->GetVM()->mtx);
		*vm = (ENV::FromJNIEnv(env))->GetVM()->GetJavaVM();
	}
	return 0;""", """	if(!vm) {
		return 0;
	}
	auto& nvm = *ENV::FromJNIEnv(env)->GetVM();
	std::unique_lock<std::mutex> guard(nvm.mtx, std::defer_lock);
	guard.lock();
	*vm = nvm.GetJavaVM();
	return 0;"""))
# ---- C05
FC = 'src/jnivm/internal/findclass.cpp'
bug('nvoverload-unlocked', 'C05', (ME, "    std::lock_guard<std::mutex> lock(cl->mtx);\n    auto res", "    auto res"))
bug('newglobal-nolock-fastpath', 'C05', (VM, "	std::lock_guard<std::mutex> guard{nvm.mtx};\n	auto fe = nvm.globals.end();", "	if(nvm.globals.empty()) return;\n	std::lock_guard<std::mutex> guard{nvm.mtx};\n	auto fe = nvm.globals.end();"))
bug('attach-double-checked', 'C05', (VM, "				std::lock_guard<std::mutex> lock(nvm.mtx);\n				auto&& nenv = nvm.jnienvs[pthread_self()];", "				auto&& nenv = nvm.jnienvs[pthread_self()];\n				std::lock_guard<std::mutex> lock(nvm.mtx);"))
bug('getfieldid-wrong-lock', 'C05', (FI, "    std::lock_guard<std::mutex> lock(cl->mtx);\n    std::string &classname", "    std::lock_guard<std::mutex> lock(ENV::FromJNIEnv(env)->GetVM()->mtx);\n    std::string &classname"))
bug('getmethodid-lock-ends-early', 'C05', (ME, "        if(cur) {\n            std::lock_guard<std::mutex> lock(cur->mtx);\n            cur->methods", "        if(cur) {\n            { std::lock_guard<std::mutex> lock(cur->mtx); }\n            cur->methods"))
bug('declare-unlocked', 'C05', (FC, "				std::lock_guard<std::mutex> lock(ENV::FromJNIEnv(env)->GetVM()->mtx);\n				InternalFindClass", "				InternalFindClass"))
bug('unregister-wrong-class', 'C05', (VM, "		std::lock_guard<std::mutex> lock(clazz->mtx);\n		clazz->natives.clear();", "		std::lock_guard<std::mutex> lock(clazz->getClassInternal(ENV::FromJNIEnv(env))->mtx);\n		clazz->natives.clear();"))
ref('registernatives-helper', 'C05 C04', (VM, "jint RegisterNatives(JNIEnv *env, jclass c,", """static void setNative(Class* clazz, const JNINativeMethod *method) {
	clazz->natives[method->name] = method->fnPtr;
}
jint RegisterNatives(JNIEnv *env, jclass c,"""), (VM, "			clazz->natives[method->name] = method->fnPtr;\n#ifdef", "			setNative(clazz.get(), method);\n#ifdef"))
ref('weak-manual-lock', 'C05 C04 C08', (VM, """		std::lock_guard<std::mutex> guard(ENV::FromJNIEnv(env)->GetVM()->mtx);
		weak->clazz = InternalFindClass(ENV::FromJNIEnv(env), "java/lang/ref/WeakReference");""", """		auto nenv = ENV::FromJNIEnv(env);
		auto vm = nenv->GetVM();
		std::unique_lock<std::mutex> guard(vm->mtx);
		std::shared_ptr<Class> ref = InternalFindClass(nenv, "java/lang/ref/WeakReference");
		weak->clazz = ref;"""))
# ---- C03
bug('static-catch-std-only', 'C03', (ME, """             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
        } catch (...) {""", """             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
        } catch (const std::exception&) {"""))
bug('nonvirtual-keeps-older', 'C03 C24', (ME, """NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
        } catch (...) {
            auto cur = std::make_shared<Throwable>();
            cur->except = std::current_exception();
            (ENV::FromJNIEnv(env))->current_exception = cur;""", """NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
        } catch (...) {
            auto cur = std::make_shared<Throwable>();
            cur->except = std::current_exception();
            if(!(ENV::FromJNIEnv(env))->current_exception) (ENV::FromJNIEnv(env))->current_exception = cur;"""))
bug('instance-no-except', 'C03', (ME, """->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
        } catch (...) {
            auto cur = std::make_shared<Throwable>();
            cur->except = std::current_exception();""", """->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
        } catch (...) {
            auto cur = std::make_shared<Throwable>();
            cur->except = std::make_exception_ptr(std::runtime_error("hook failed"));"""))
bug('instance-rethrow-null-object', 'C03', (ME, """->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
        } catch (...) {""", """->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
        } catch (...) {
            if(!obj) throw;"""))
bug('static-other-env', 'C03', (ME, """->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
        } catch (...) {
            auto cur = std::make_shared<Throwable>();
            cur->except = std::current_exception();
            (ENV::FromJNIEnv(env))->current""", """->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
        } catch (...) {
            auto cur = std::make_shared<Throwable>();
            cur->except = std::current_exception();
            (ENV::FromJNIEnv(env))->GetVM()->GetEnv()->current"""))
bug('static-direct-call', 'C03', (ME, """        try {
             return static_cast""", """        if(!param) return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
        try {
             return static_cast"""))
ref('catch-helper', 'C03 C24', (ME, "template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {", """static void setPending(JNIEnv *env) {
    std::shared_ptr<Throwable> pending = std::make_shared<Throwable>();
    pending->except = std::current_exception();
    ENV::FromJNIEnv(env)->current_exception = std::move(pending);
}
template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {"""), (ME, """            auto cur = std::make_shared<Throwable>();
            cur->except = std::current_exception();
            (ENV::FromJNIEnv(env))->current_exception = cur;""", "            setPending(env);"))
ref('handle-local', 'C03 C21 C22', (ME, """            return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});""", """            auto handle = static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get());
            ENV* nenv = ENV::FromJNIEnv(env);
            return handle->InstanceInvoke(nenv, obj, param, {});"""))
ref('return-outside-try', 'C03 C21 C22', (ME, """        } catch (...) {
            auto cur = std::make_shared<Throwable>();
            cur->except = std::current_exception();
            (ENV::FromJNIEnv(env))->current_exception = cur;
#ifdef JNI_TRACE
            env->ExceptionDescribe();
#endif
            return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
        }
    } else {""", """        } catch (...) {
            auto cur = std::make_shared<Throwable>();
            cur->except = std::current_exception();
            (ENV::FromJNIEnv(env))->current_exception = cur;
#ifdef JNI_TRACE
            env->ExceptionDescribe();
#endif
        }
        return defaultVal<T>(ENV::FromJNIEnv(env), mid->signature);
    } else {"""))

# ---- C01
JNI = 'include/jni.h'; MC = 'src/jnivm/internal/method.cpp'; FC = 'src/jnivm/internal/field.cpp'
bug('wrapper-other-slot', 'C01', (JNI, '{ return functions->GetStaticMethodID(this, clazz, name, sig); }', '{ return functions->GetMethodID(this, clazz, name, sig); }'))
bug('wrapper-swapped-args', 'C01', (JNI, '{ return functions->GetMethodID(this, clazz, name, sig); }', '{ return functions->GetMethodID(this, clazz, sig, name); }'))
bug('wrapper-newobjecta', 'C01', (JNI, '{ return functions->NewObjectA(this, clazz, methodID, args); }', '{ return functions->CallStaticObjectMethodA(this, clazz, methodID, args + (args ? 0 : 1)); }'))
bug('wrapper-nonvirt-v', 'C01', (JNI, '#define CALL_NONVIRT_TYPE_METHODA(_jtype, _jname)', '#define CALL_NONVIRT_TYPE_METHODA_(_jtype, _jname)'), (JNI, '#define CALL_NONVIRT_TYPE(_jtype, _jname) ', '''#define CALL_NONVIRT_TYPE_METHODA(_jtype, _jname) _jtype CallNonvirtual##_jname##MethodA(jobject obj, jclass clazz, jmethodID methodID, jvalue* args) { return functions->Call##_jname##MethodA(this, obj, methodID, args); }
#define CALL_NONVIRT_TYPE(_jtype, _jname) '''))
bug('nonvirt-uses-virtual-op', 'C01', (MC, '->NonVirtualInstanceInvoke(', '->InstanceInvoke('))
bug('static-get-for-instance', 'C01', (FC, 'return p->InstanceGet(env, val, nullptr, {});', 'return p->NonVirtualInstanceGet(env, val, nullptr, {});'))
bug('variadic-other-class', 'C01', (MC, 'T ret = MDispatch<T, Y...>::CallMethod(env, p..., id, l);\n    va_end(l);\n    return ret;', 'T ret = MDispatch<T, Y...>::CallMethod(env, p..., id, l);\n    va_end(l);\n    return ret ? ret : T{};'))
bug('delete-local-is-global', 'C01', (VM, '						DeleteLocalRef,', '						DeleteGlobalRef,'))
bug('newlocal-is-global', 'C01', (VM, '						NewLocalRef,', '						NewGlobalRef,'))
bug('monitor-swap', 'C01', (VM, '						MonitorExit,', '						MonitorEnter,'))
bug('ensure-is-push', 'C01', (VM, '						EnsureLocalCapacity,', '						PushLocalFrame,'))
bug('set-field-constant', 'C01', (FC, 'memcpy(&val, &value, sizeof(T));', 'if(sizeof(T) > 1) memcpy(&val, &value, sizeof(T)); else val.z = !!*(char*)&value;'))
ref('vdata-local', 'C01 C03', (MC, 'return MDispatch<T, Y...>::CallMethod(env, p..., id, JValuesfromValist(param, ((Method *)id)->signature.data()).data());', 'const char* sig = ((Method *)id)->signature.c_str();\n        auto values = JValuesfromValist(param, sig);\n        jvalue* first = values.empty() ? nullptr : &values[0];\n        return MDispatch<T, Y...>::CallMethod(env, p..., id, first);'))
ref('variadic-through-slot', 'C01 C03', (MC, 'return MDispatch<T, Y...>::CallMethod(env, p..., id, JValuesfromValist(param, ((Method *)id)->signature.data()).data());', 'auto values = JValuesfromValist(param, ((Method *)id)->signature.data());\n        return MDispatch<T, Y...>::CallMethod(env, p..., id, values.data());'))
ref('wrapper-local', 'C01', (JNI, '    { return functions->GetStaticMethodID(this, clazz, name, sig); }', '    { jmethodID r = functions->GetStaticMethodID(this, clazz, name, sig);\n      return r; }'))
ref('wrapper-table-local', 'C01', (JNI, '    { return functions->GetObjectClass(this, obj); }', '    { const JNINativeInterface* table = functions; JNIEnv* self = this; return table->GetObjectClass(self, obj); }'))
ref('field-caller-inline', 'C01 C03', (FC, '        jvalue val;\n        memset(&val, 0, sizeof(val));\n        memcpy(&val, &value, sizeof(T));\n', '        jvalue val = {};\n        memcpy(&val, &value, sizeof(value));\n'))
ref('call-early-return', 'C01 C03', (MC, '    if (mid && mid->nativehandle) {\n#ifdef JNI_TRACE\n        LOG("JNIVM", "Call Static', '    if (mid == nullptr) return defaultVal<T>(ENV::FromJNIEnv(env), "");\n    if (mid->nativehandle) {\n#ifdef JNI_TRACE\n        LOG("JNIVM", "Call Static'))

# ---- C18
BJ = 'src/baron/jvm.cpp'
bug('deny-static-method-unchecked', 'C18', (BJ, 'return GetNativeInterfaceTemplate<false>().GetStaticMethodID(env, c, n, s);\n        }\n        return nullptr;', 'return GetNativeInterfaceTemplate<false>().GetStaticMethodID(env, c, n, s);\n        }\n        return cl && cl->baseclasses ? GetNativeInterfaceTemplate<false>().GetStaticMethodID(env, c, n, s) : nullptr;'))
bug('deny-swapped-args', 'C18', (BJ, 'isFieldDenied(n, s, cl ? cl->nativeprefix.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetStaticFieldID', 'isFieldDenied(s, n, cl ? cl->nativeprefix.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetStaticFieldID'))
bug('deny-no-class-part', 'C18', (BJ, 'isMethodDenied(n, s, cl ? cl->nativeprefix.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetStaticMethodID', 'isMethodDenied(n, s)) {\n            return GetNativeInterfaceTemplate<false>().GetStaticMethodID'))
bug('deny-short-class-name', 'C18', (BJ, 'cl ? cl->nativeprefix.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetFieldID', 'cl ? cl->name.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetFieldID'))
bug('deny-query-field-as-method', 'C18', (BJ, 'isFieldDenied(n, s, cl ? cl->nativeprefix.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetFieldID', 'isMethodDenied(n, s, cl ? cl->nativeprefix.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetFieldID'))
bug('deny-filter-parts-swapped', 'C18', (BJ, 'denyFields.insert({name, { clazz, sig }});', 'denyFields.insert({name, { sig, clazz }});'))
bug('deny-first-filter-decides', 'C18', (BJ, '            if(sig && sig[0] != \'\\0\' && i->second.signature != "" && i->second.signature != sig) {\n                continue;', '            if(sig && sig[0] != \'\\0\' && i->second.signature != "" && i->second.signature != sig) {\n                break;'))
bug('deny-no-wildcard-name', 'C18', (BJ, 'auto results = { denyFields.equal_range(""), denyFields.equal_range(name) };', 'auto results = { denyFields.equal_range(name) };'))
bug('deny-empty-signature-no-wildcard', 'C18', (BJ, 'i->second.signature != "" && i->second.signature != sig', 'i->second.signature != sig'))
bug('deny-class-part-required', 'C18', (BJ, 'i->second.classname.empty() || i->second.classname == clazz', 'i->second.classname == clazz'))
bug('deny-class-prefix', 'C18', (BJ, 'i->second.classname == clazz', 'i->second.classname.compare(0, std::string::npos, clazz, i->second.classname.size()) == 0'))
bug('deny-method-consults-fields', 'C18', (BJ, 'auto results = { denyMethods.equal_range(""), denyMethods.equal_range(name) };', 'auto results = { denyMethods.equal_range(""), denyFields.equal_range(name) };'))
bug('deny-host-lookup-unchecked', 'C18', (BJ, '    if(!isClassDenied(name)) {\n        return jnivm::InternalFindClass', '    if(!isClassDenied(name) || denyMethods.empty()) {\n        return jnivm::InternalFindClass'))
bug('deny-table-not-installed', 'C18', (BJ, '    tmpl.GetStaticFieldID = [](JNIEnv *env', '    if(!denyFields.empty()) tmpl.GetStaticFieldID = [](JNIEnv *env'))
bug('deny-signature-class-created', 'C18', ('src/jnivm/internal/findclass.cpp', 'env->DeleteLocalRef(env->FindClass(classpath.data()));', 'InternalFindClass(ENV::FromJNIEnv(env), classpath.data());'))
bug('deny-known-field-hidden', 'C18', (BJ, '        jfieldID  ret = GetNativeInterfaceTemplate<true>().GetStaticFieldID(env, c, n, s);\n        if(ret)\n            return ret;', '        jfieldID  ret = GetNativeInterfaceTemplate<true>().GetStaticFieldID(env, c, n, s);'))
ref('deny-helper-match', 'C18', (BJ, '''            if(sig && sig[0] != '\\0' && i->second.signature != "" && i->second.signature != sig) {
                continue;
            }
            if(!clazz || clazz[0] == '\\0' || i->second.classname.empty() || i->second.classname == clazz) {
                return true;
            }''', '''            bool sigok = !sig || sig[0] == '\\0' || i->second.signature.empty() || i->second.signature == sig;
            bool classok = !clazz || clazz[0] == '\\0' || i->second.classname.empty() || i->second.classname == clazz;
            if(sigok && classok) return true;'''))
ref('deny-early-null', 'C18', (BJ, '        if(!static_cast<Baron::Jvm*>(jnivm::ENV::FromJNIEnv(env)->GetVM())->isFieldDenied(n, s, cl ? cl->nativeprefix.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetStaticFieldID(env, c, n, s);\n        }\n        return nullptr;', '        auto vm = static_cast<Baron::Jvm*>(jnivm::ENV::FromJNIEnv(env)->GetVM());\n        const char* cname = cl ? cl->nativeprefix.data() : "";\n        if(vm->isFieldDenied(n, s, cname)) return nullptr;\n        return GetNativeInterfaceTemplate<false>().GetStaticFieldID(env, c, n, s);'))
ref('deny-count', 'C18', (BJ, 'return denyClasses.find(name) != denyClasses.end();', 'return denyClasses.count(name) != 0;'))
ref('deny-emplace', 'C18', (BJ, 'denyMethods.insert({name, { clazz, sig }});', 'denyFilter f;\n    f.classname = clazz;\n    f.signature = sig;\n    denyMethods.emplace(name, f);'))
ref('deny-named-lambda', 'C18', (BJ, '    auto ret = std::make_shared<FakeJni::Env>', '''    auto filtered = [](JNIEnv *env, jclass c, const char *n, const char *s) -> jfieldID {
        if(jfieldID known = GetNativeInterfaceTemplate<true>().GetStaticFieldID(env, c, n, s)) return known;
        auto owner = jnivm::ENV::FromJNIEnv(env);
        auto cl = jnivm::JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(owner, c);
        auto denied = static_cast<Baron::Jvm*>(owner->GetVM())->isFieldDenied(n, s, cl ? cl->nativeprefix.c_str() : "");
        return denied ? nullptr : GetNativeInterfaceTemplate<false>().GetStaticFieldID(env, c, n, s);
    };
    tmpl.GetStaticFieldID = filtered;
    auto ret = std::make_shared<FakeJni::Env>'''))

# ---- C20
UN = '''		for(size_t i = 0; i < clazz->methods.size(); ++i) {
			if(clazz->methods[i]->native) {
				clazz->methods.erase(clazz->methods.begin() + i);
				--i;
			}
		}
'''
bug('unregister-skips-next', 'C20', (VM, 'clazz->methods.erase(clazz->methods.begin() + i);\n				--i;', 'clazz->methods.erase(clazz->methods.begin() + i);'))
bug('unregister-drops-unhooked', 'C20', (VM, 'if(clazz->methods[i]->native) {', 'if(clazz->methods[i]->native || !clazz->methods[i]->nativehandle) {'))
bug('unregister-only-first', 'C20', (VM, 'clazz->methods.erase(clazz->methods.begin() + i);\n				--i;', 'clazz->methods.erase(clazz->methods.begin() + i);\n				break;'))
bug('unregister-from-one', 'C20', (VM, 'for(size_t i = 0; i < clazz->methods.size(); ++i) {\n			if(clazz->methods[i]->native)', 'for(size_t i = clazz->methods.size() > 8; i < clazz->methods.size(); ++i) {\n			if(clazz->methods[i]->native)'))
bug('unregister-keeps-hooked', 'C20', (VM, 'if(clazz->methods[i]->native) {', 'if(clazz->methods[i]->native && !clazz->methods[i]->_static) {'))
bug('register-ignores-signature', 'C20', (VM, 'return m->native && m->name == method->name && m->signature == method->signature;', 'return m->native && m->name == method->name && m->signature.size() == strlen(method->signature);'))
bug('register-replaces-hook', 'C20', (VM, 'return m->native && m->name == method->name && m->signature == method->signature;', 'return m->name == method->name && m->signature == method->signature;'))
bug('register-first-wins', 'C20', (VM, '(*old)->native = method->fnPtr;', 'if(!(*old)->native) (*old)->native = method->fnPtr;'))
bug('register-skips-one', 'C20', (VM, '		while(i--) {\n			clazz->natives', '		while(i-- > 1) {\n			clazz->natives'))
bug('register-skips-nulls-shift', 'C20', (VM, '		while(i--) {\n			clazz->natives', '		while(i--) {\n			if(!method->fnPtr) continue;\n			clazz->natives'))
bug('register-other-entry', 'C20', (VM, 'm->native = method->fnPtr;\n				clazz', 'm->native = (i ? method + 0 : method)->fnPtr ? method[i ? 1 : 0].fnPtr : nullptr;\n				clazz'))
bug('register-swaps', 'C20', (VM, 'm->name = method->name;\n				m->signature = method->signature;', 'm->name = method->signature;\n				m->signature = method->name;'))
bug('register-static', 'C20', (VM, 'm->native = method->fnPtr;\n				clazz', 'm->native = method->fnPtr;\n				m->_static = m->signature.back() == \'V\';\n				clazz'))
bug('register-clears-old', 'C20', (VM, '		std::lock_guard<std::mutex> lock(clazz->mtx);\n		while(i--) {', '		std::lock_guard<std::mutex> lock(clazz->mtx);\n		if(i > 1) clazz->methods.clear();\n		while(i--) {'))
ref('register-for-loop', 'C20 C05 C04 C09', (VM, '''		while(i--) {
			clazz->natives[method->name] = method->fnPtr;''', '''		for(jint k = 0; k < i; k++, method++) {
			clazz->natives[method->name] = method->fnPtr;'''), (VM, '''				clazz->methods.push_back(m);
			}
			method++;
''', '''				clazz->methods.push_back(m);
			}
'''))
ref('register-indexed', 'C20', (VM, '''		while(i--) {
			clazz->natives[method->name] = method->fnPtr;''', '''		const JNINativeMethod* table = method;
		for(jint k = 0; k < i; k++) {
			const JNINativeMethod* method = &table[k];
			clazz->natives[method->name] = method->fnPtr;'''), (VM, '''				clazz->methods.push_back(m);
			}
			method++;
''', '''				clazz->methods.push_back(m);
			}
'''))
ref('unregister-remove-if', 'C20 C05', (VM, UN, '''		clazz->methods.erase(std::remove_if(clazz->methods.begin(), clazz->methods.end(), [](const std::shared_ptr<Method>& m) { return m->native != nullptr; }), clazz->methods.end());
'''))
ref('unregister-iterator', 'C20 C05', (VM, UN, '''		for(auto it = clazz->methods.begin(); it != clazz->methods.end();) {
			if((*it)->native) it = clazz->methods.erase(it);
			else ++it;
		}
'''))
ref('unregister-while', 'C20', (VM, UN, '''		size_t i = 0;
		while(i < clazz->methods.size()) {
			if(!clazz->methods[i]->native) { i++; continue; }
			clazz->methods.erase(clazz->methods.begin() + i);
		}
'''))
ref('register-manual-search', 'C20 C05', (VM, '''			auto old = std::find_if(clazz->methods.begin(), clazz->methods.end(), [method](std::shared_ptr<Method>& m) {
				return m->native && m->name == method->name && m->signature == method->signature;
			});
			if(old != clazz->methods.end()) {
				// Registered again, the new function replaces the previous one
				(*old)->native = method->fnPtr;
			} else {''', '''			Method* old = nullptr;
			for(auto&& m : clazz->methods) {
				if(!m->native) continue;
				if(m->signature != method->signature) continue;
				if(m->name != method->name) continue;
				old = m.get();
				break;
			}
			if(old) {
				old->native = method->fnPtr;
			} else {'''))
ref('register-helper', 'C20 C05 C04', (VM, '''				auto m = std::make_shared<Method>();
				m->name = method->name;
				m->signature = method->signature;
				m->native = method->fnPtr;
				clazz->methods.push_back(m);''', '''				clazz->methods.push_back(makeNative(*method));'''), (VM, 'jint RegisterNatives(', '''static std::shared_ptr<Method> makeNative(const JNINativeMethod& desc) {
	std::shared_ptr<Method> m = std::make_shared<Method>();
	m->signature = desc.signature;
	m->native = desc.fnPtr;
	m->name = desc.name;
	return m;
}
jint RegisterNatives('''))
# ---- C11 / C12
GM = 'namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature == ssig'
GF = 'namesp->_static == isStatic && namesp->name == sname && namesp->type == ssig'
FD = 'src/jnivm/internal/findclass.cpp'
bug('method-ignores-static', 'C11', (MC, GM, 'AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature == ssig'))
bug('method-native-counts', 'C11', (MC, GM, 'namesp->_static == isStatic && (!AllowNative || namesp->native) && namesp->name == sname && namesp->signature == ssig'))
bug('method-args-only', 'C11', (MC, GM, "namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature.substr(0, namesp->signature.find(')')) == ssig.substr(0, ssig.find(')'))"))
bug('method-sig-prefix', 'C11', (MC, GM, 'namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && !namesp->signature.compare(0, ssig.size(), ssig)'))
bug('field-ignores-type', 'C11', (FC, GF, 'namesp->_static == isStatic && namesp->name == sname && namesp->type.size() == strlen(ssig)'))
bug('field-static-only-if-hooked', 'C11', (FC, GF, '(namesp->_static == isStatic || !namesp->getnativehandle) && namesp->name == sname && namesp->type == ssig'))
bug('method-skips-hooked', 'C11', (MC, GM, GM + ' && !(isStatic && namesp->nativehandle && ssig.size() > 64)'))
bug('method-search-from-second', 'C11', (MC, 'std::find_if(cur->methods.begin(), cur->methods.end(),', 'std::find_if(cur->methods.begin() + (cur->methods.size() > 100), cur->methods.end(),'))
bug('method-bases-only-first', 'C11', (MC, 'if(id) {\n                        return id;\n                    }\n                }', 'if(id) {\n                        return id;\n                    }\n                    if(!trace) break;\n                }'))
bug('method-create-no-bases', 'C11', (MC, 'if(cur && cur->baseclasses) {', 'if(cur && cur->baseclasses && (ReturnNull || cur->methods.size())) {'))
bug('field-create-no-bases', 'C11', (FC, 'if(cur->baseclasses) {', 'if(ReturnNull && cur->baseclasses) {'))
bug('field-bases-other-kind', 'C11', (FC, 'GetFieldID<isStatic, true, false>(env', 'GetFieldID<false, true, false>(env'))
bug('method-created-instance', 'C11', (MC, 'next->_static = isStatic;', 'next->_static = isStatic && next->name != "<init>";'))
bug('field-created-no-static', 'C11', (FC, '        next->_static = isStatic;\n', ''))
bug('method-not-recorded', 'C11', (MC, 'cur->methods.push_back(next);', 'if(!isStatic || cur->baseclasses) cur->methods.push_back(next);'))
bug('method-created-in-base', 'C11', (MC, 'cur->methods.push_back(next);', '(cur->baseclasses && cur->baseclasses(ENV::FromJNIEnv(env)).size() ? cur->baseclasses(ENV::FromJNIEnv(env))[0] : cur)->methods.push_back(next);'))
bug('field-name-for-type', 'C11', (FC, 'next->type = std::move(ssig);', 'next->type = std::move(ssig); if(next->type.empty()) next->type = name;'))
bug('ctor-keeps-return', 'C11', (MC, 'ssig.append(cur->nativeprefix);', 'ssig.append(cur->name);'))
bug('ctor-not-redirected', 'C11', (MC, 'if(!isStatic && sname == "<init>")', 'if(!isStatic && AllowNative && sname == "<init>")'))
bug('inherited-before-own', 'C11', (MC, '    if(cur) {\n        // Rewrite', '    if(cur && cur->baseclasses) for(auto&& i : cur->baseclasses(ENV::FromJNIEnv(env))) { if(i && i->methods.size() > cur->methods.size()) if(auto id = GetMethodID<isStatic, true, AllowNative, false>(env, (jclass)i.get(), str0, str1)) return id; }\n    if(cur) {\n        // Rewrite'))
bug('last-base-wins', 'C11', (FC, 'if(id) {\n                        return id;\n                    }', 'if(id && !cl->fields.empty()) {\n                        return id;\n                    }'))
ref('method-manual-loop', 'C11 C12 C05 C04', (MC, '''            auto ccl =
                    std::find_if(cur->methods.begin(), cur->methods.end(),
                                            [&sname, &ssig](std::shared_ptr<Method> &namesp) {
                                                return namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature == ssig;
                                            });
            if (ccl != cur->methods.end()) {
                next = *ccl;
            }
''', '''            for(auto&& m : cur->methods) {
                if(AllowNative != (m->native != nullptr) || m->_static != isStatic) continue;
                if(m->name == sname && m->signature == ssig) {
                    next = m;
                    break;
                }
            }
'''))
ref('method-match-helper', 'C11 C12', (MC, 'template<bool isStatic, bool ReturnNull, bool AllowNative, bool trace>\njmethodID', '''static bool sameMember(const Method& m, const std::string& n, const std::string& s) {
    return n == m.name && !m.signature.compare(s);
}
template<bool isStatic, bool ReturnNull, bool AllowNative, bool trace>
jmethodID'''), (MC, GM, 'namesp->_static == isStatic && AllowNative == (bool)namesp->native && sameMember(*namesp, sname, ssig)'))
ref('field-index-loop', 'C11 C12 C05', (FC, '''    auto ccl =
            std::find_if(cur->fields.begin(), cur->fields.end(),
                                    [&sname, &ssig](std::shared_ptr<Field> &namesp) {
                                        return namesp->_static == isStatic && namesp->name == sname && namesp->type == ssig;
                                    });
    std::shared_ptr<Field> next;
    if (ccl != cur->fields.end()) {
        next = *ccl;
''', '''    std::shared_ptr<Field> next;
    for(size_t k = 0; k < cur->fields.size(); k++) {
        auto& f = cur->fields[k];
        if(f->_static == isStatic && f->name == sname && f->type == ssig) { next = f; break; }
    }
    if (next) {
'''))
ref('method-create-helper', 'C11 C12 C05 C04', (MC, '''        next = std::make_shared<Method>();
        next->name = std::move(sname);
        next->signature = std::move(ssig);
        next->_static = isStatic;
''', '''        next = makeMember(sname, ssig, isStatic);
'''), (MC, 'template<bool isStatic, bool ReturnNull, bool AllowNative, bool trace>\njmethodID', '''static std::shared_ptr<Method> makeMember(const std::string& n, const std::string& s, bool st) {
    auto m = std::make_shared<Method>();
    m->_static = st; m->signature = s; m->name = n;
    return m;
}
template<bool isStatic, bool ReturnNull, bool AllowNative, bool trace>
jmethodID'''))
ref('method-base-helper', 'C11 C12', (MC, '''            for(auto&& i : cur->baseclasses(ENV::FromJNIEnv(env))) {
                if(i) {
                    auto id = GetMethodID<isStatic, true, AllowNative, false>(env, (jclass)i.get(), str0, str1);
                    if(id) {
                        return id;
                    }
                }
            }
''', '''            auto bases = cur->baseclasses(ENV::FromJNIEnv(env));
            for(size_t k = 0; k < bases.size(); ++k) {
                if(!bases[k]) continue;
                if(auto id = GetMethodID<isStatic, true, AllowNative, false>(env, (jclass)bases[k].get(), str0, str1)) return id;
            }
'''))
bug('lookup-creates-method', 'C12', (MC, '        if(ReturnNull) {\n', '        if(ReturnNull && !(cur && sname == "<clinit>")) {\n'))
bug('lookup-creates-field', 'C12', (FC, '        if(ReturnNull) {\n', '        if(ReturnNull && cur->fields.size()) {\n'))
bug('lookup-creates-class', 'C12', (FD, '	} else {\n		if(returnZero) return nullptr;\n		curc', '	} else {\n		if(returnZero && name[1] != \'L\') return nullptr;\n		curc'))
bug('lookup-creates-namespace', 'C12', (FD, '				if(returnZero) return nullptr;\n				next = std::make_shared<Namespace>();', '				next = std::make_shared<Namespace>();'))
bug('lookup-creates-nested', 'C12', (FD, '					if(returnZero) return nullptr;\n					next = std::make_shared<Class>();\n					curc', '					if(returnZero && pos == end) return nullptr;\n					next = std::make_shared<Class>();\n					curc'))
bug('lookup-base-creates', 'C12', (FC, 'GetFieldID<isStatic, true, false>(env', 'GetFieldID<isStatic, ReturnNull, ReturnNull && false>(env'), (FC, '        if(cur->baseclasses) {', '        if(cur->baseclasses) {'))
bug('table-creating-static', 'C12', (VM, 'GetMethodID<true, ReturnNull>,', 'GetMethodID<true, false>,'))
bug('host-find-creates', 'C12', ('src/fake-jni/fake-jni.cpp', 'jnivm::InternalFindClass(jnivm::VM::GetEnv().get(), name, true)', "jnivm::InternalFindClass(jnivm::VM::GetEnv().get(), name, name[0] != '[')"))
bug('host-getmethod-creates', 'C12', ('src/fake-jni/method.cpp', 'GetMethodID<true, true, false, false>', 'GetMethodID<true>'))
bug('lookup-map-brackets', 'C12', (FD, '	auto ccl = vm->classes.find(name);\n	if (ccl != vm->classes.end()) {\n		curc = ccl->second;\n	} else {', '	auto& known = vm->classes[name];\n	if (known) {\n		curc = known;\n	} else {'))
bug('create-null-for-empty', 'C12', (MC, '        if(ReturnNull) {\n', '        if(ReturnNull || ssig.empty()) {\n'))
bug('create-class-null', 'C12', (FD, '		curc = std::make_shared<Class>();\n		const char', '		if(!*name) return nullptr;\n		curc = std::make_shared<Class>();\n		const char'))
ref('findclass-guard', 'C12 C05 C18', (FD, '	} else {\n		if(returnZero) return nullptr;\n		curc = std::make_shared<Class>();', '	} else if(!returnZero) {\n		curc = std::make_shared<Class>();'))
# ---- C21
FO = '!m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle'
bug('overload-static-ok', 'C21', (MC, FO, 'mid->name == m->name && mid->signature == m->signature && m->nativehandle'))
bug('overload-no-handle', 'C21', (MC, FO, '!m->_static && mid->name == m->name && mid->signature == m->signature'))
bug('overload-sig-length', 'C21', (MC, FO, '!m->_static && mid->name == m->name && mid->signature.size() == m->signature.size() && m->nativehandle'))
bug('overload-name-ignored-ctor', 'C21', (MC, FO, '!m->_static && (mid->name == m->name || mid->name[0] == \'_\') && mid->signature == m->signature && m->nativehandle'))
bug('overload-native-skipped', 'C21', (MC, FO, FO + ' && m.get() != mid'))
bug('virtual-bases-first', 'C21', (MC, '    auto r = findNonVirtualOverload(cl, mid);\n    if(r == nullptr && cl->baseclasses) {', '    Method* r = nullptr;\n    if(cl && cl->baseclasses) {'), (MC, '                break;\n            }\n        }\n    }\n    return r;', '                break;\n            }\n        }\n    }\n    if(!r) r = findNonVirtualOverload(cl, mid);\n    return r;'))
bug('virtual-last-base-wins', 'C21', (MC, '            if(base && (r = findVirtualOverload(env, base.get(), mid))) {\n                break;\n            }', '            if(base) {\n                if(auto n = findVirtualOverload(env, base.get(), mid)) r = n;\n            }'))
bug('virtual-only-first-base', 'C21', (MC, '            if(base && (r = findVirtualOverload(env, base.get(), mid))) {\n                break;\n            }', '            if(base) {\n                r = findVirtualOverload(env, base.get(), mid);\n                break;\n            }'))
bug('virtual-one-level', 'C21', (MC, '(r = findVirtualOverload(env, base.get(), mid))', '(r = findNonVirtualOverload(base.get(), mid))'))
bug('virtual-stale-result', 'C21', (MC, '(r = findVirtualOverload(env, base.get(), mid))', 'findVirtualOverload(env, base.get(), mid)'))
bug('virtual-unimplemented-base', 'C21', (MC, '        auto overload = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);\n        if(overload) {', '        auto overload = findNonVirtualOverload(cl.get(), mid);\n        if(overload) {'))
bug('nonvirtual-objects-class', 'C21', (MC, 'auto overload = findVirtualOverload(ENV::FromJNIEnv(env), clz.get(), mid);', 'auto own = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));\n        auto overload = findVirtualOverload(ENV::FromJNIEnv(env), own.get(), mid);'))
bug('nonvirtual-runs-id', 'C21', (MC, '        auto overload = findVirtualOverload(ENV::FromJNIEnv(env), clz.get(), mid);\n        if(overload) {', '        auto overload = clz && clz->baseclasses ? findVirtualOverload(ENV::FromJNIEnv(env), clz.get(), mid) : nullptr;\n        if(overload) {'))
bug('virtual-skips-if-static-id', 'C21', (MC, '        auto overload = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);\n        if(overload) {', '        auto overload = mid->_static ? nullptr : findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);\n        if(overload && overload->signature.size() < 64) {'))
bug('objectclass-static', 'C21', (VM, 'o->getClassInternal(ENV::FromJNIEnv(env)))', 'o->clazz.lock())'))
ref('overload-manual-loop', 'C21 C05 C04', (MC, '''    auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
        return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
    });
    if(res != cl->methods.end()) {
        return res->get();
    } else {
        return nullptr;
    }''', '''    for(auto&& m : cl->methods) {
        if(m->_static || !m->nativehandle) continue;
        if(m->signature != mid->signature) continue;
        if(m->name == mid->name) return m.get();
    }
    return nullptr;'''))
ref('virtual-early-return', 'C21 C05 C04', (MC, '''    auto r = findNonVirtualOverload(cl, mid);
    if(r == nullptr && cl->baseclasses) {
        for(auto&& base : cl->baseclasses(env)) {
            if(base && (r = findVirtualOverload(env, base.get(), mid))) {
                break;
            }
        }
    }
    return r;''', '''    if(auto own = findNonVirtualOverload(cl, mid)) return own;
    if(!cl->baseclasses) return nullptr;
    auto bases = cl->baseclasses(env);
    for(size_t i = 0; i < bases.size(); i++) {
        if(!bases[i]) continue;
        auto r = findVirtualOverload(env, bases[i].get(), mid);
        if(r) return r;
    }
    return nullptr;'''))
ref('virtual-helper', 'C21 C01 C03 C05', (MC, 'template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {', '''static Method* resolveOverload(jnivm::ENV *env, const std::shared_ptr<Class>& cl, Method* mid) {
    auto overload = findVirtualOverload(env, cl.get(), mid);
    return overload ? overload : mid;
}
template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {'''),
 (MC, '''        auto overload = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);
        if(overload) {
            mid = overload;
        }''', '        mid = resolveOverload(ENV::FromJNIEnv(env), cl, mid);'))
ref('overload-sharedptr', 'C21', (MC, 'static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {\n    auto r = findNonVirtualOverload(cl, mid);', 'static Method* findVirtualOverload(jnivm::ENV *env, const std::shared_ptr<Class>& cl, Method*mid) {\n    auto r = findNonVirtualOverload(cl.get(), mid);'),
 (MC, 'findVirtualOverload(env, base.get(), mid)', 'findVirtualOverload(env, base, mid)'), (MC, 'findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid)', 'findVirtualOverload(ENV::FromJNIEnv(env), cl, mid)'), (MC, 'findVirtualOverload(ENV::FromJNIEnv(env), clz.get(), mid)', 'findVirtualOverload(ENV::FromJNIEnv(env), clz, mid)'))
# ---- C22
bug('call-null-id', 'C22', (MC, 'va_list param) {\n    if(id) {', 'va_list param) {\n    if(id || env) {'))
bug('call-unimplemented-id', 'C22', (MC, 'if (mid && mid->nativehandle) {\n        auto clz', 'if (mid && (mid->nativehandle || mid->native)) {\n        auto clz'))
bug('getfield-null-handle', 'C22', (FC, 'if (fid && fid->getnativehandle) {', 'if (fid && (fid->getnativehandle || fid->setnativehandle)) {'))
bug('setfield-null-object', 'C22', (FC, 'if (obj && fid && fid->setnativehandle) {', 'if ((obj || fid) && fid->setnativehandle) {'))
bug('arraylength-null', 'C22', (AR, 'jsize jnivm::GetArrayLength(JNIEnv *env, jarray a) {', 'jsize jnivm::GetArrayLength(JNIEnv *env, jarray a) {\n\tif(!a) return -1;'))
bug('isinstance-null-true', 'C22 C28', (VM, 'return JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo) && IsAssignableFrom(env, GetObjectClass(env, jo), cl);', 'return !jo || IsAssignableFrom(env, GetObjectClass(env, jo), cl);'))
bug('null-default-is-first', 'C22', (MC, "        return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : \"\");\n    }\n};\n\ntemplate<class T, class... Y> T jnivm::MDispatchBase<", "        return defaultVal<T>(ENV::FromJNIEnv(env), mid->signature);\n    }\n};\n\ntemplate<class T, class... Y> T jnivm::MDispatchBase<"))
bug('registernatives-null-class', 'C22', (VM, 'if(!clazz)', 'if(!clazz && i < 0)'))
# ---- C27
bug('field-kind-not-checked', 'C27', (FC, 'if(fid->_static != std::is_same<O, jclass>::value) {\n            env->FatalError("SetField', 'if(fid->_static && !std::is_same<O, jclass>::value) {\n            env->FatalError("SetField'))
bug('field-kind-after', 'C27', (FC, '        if(fid->_static != std::is_same<O, jclass>::value) {\n            env->FatalError("GetField / Invalid Field ID");\n        }\n', '        if(fid->_static != std::is_same<O, jclass>::value) {\n            LOG("JNIVM", "GetField / Invalid Field ID");\n        }\n'))
bug('fatal-returns', 'C27', (VM, '	abort();\n', '	if(err && *err) abort();\n'))
bug('field-setter-through-getter', 'C27', (FC, 'Set<T>(fid->setnativehandle.get()', 'Set<T>((fid->getnativehandle ? fid->getnativehandle : fid->setnativehandle).get()'))
bug('field-set-skips-zero', 'C27', (FC, 'if (obj && fid && fid->setnativehandle) {', 'if (obj && fid && fid->setnativehandle && (value || !fid->getnativehandle)) {'))
bug('field-set-truncated', 'C27', (FC, 'memcpy(&val, &value, sizeof(T));', 'memcpy(&val, &value, sizeof(T) > 4 ? 4 : sizeof(T));'))
bug('field-get-twice', 'C27', (FC, '        return Caller<std::is_same<O, jclass>::value>::template Get<T>(', '        if(fid->type.empty()) Caller<std::is_same<O, jclass>::value>::template Get<T>(fid->getnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));\n        return Caller<std::is_same<O, jclass>::value>::template Get<T>('))
ref('field-kind-helper', 'C27 C22 C01', (FC, 'template<bool RetNull, class T, class O> T jnivm::GetField', '''static void requireKind(JNIEnv* env, const Field* f, bool isStatic, const char* msg) {
    if(f->_static == isStatic) return;
    env->FatalError(msg);
}
template<bool RetNull, class T, class O> T jnivm::GetField'''), (FC, '        if(fid->_static != std::is_same<O, jclass>::value) {\n            env->FatalError("GetField / Invalid Field ID");\n        }\n', '        requireKind(env, fid, std::is_same<O, jclass>::value, "GetField / Invalid Field ID");\n'))
ref('field-early-out', 'C27 C22 C01', (FC, '    if (obj && fid && fid->setnativehandle) {\n', '    if (!obj || !fid) return;\n    auto setter = fid->setnativehandle;\n    if (setter) {\n'), (FC, 'Set<T>(fid->setnativehandle.get()', 'Set<T>(setter.get()'))
# ---- C28
HB = '			if(i && HasBaseClass(env, i.get(), c2)) {\n				return true;\n			}\n'
bug('subtype-one-level', 'C28', (VM, HB, '			if(i && i.get() == c2) {\n				return true;\n			}\n'))
bug('subtype-first-base-only', 'C28', (VM, HB, '			return i && HasBaseClass(env, i.get(), c2);\n'))
bug('subtype-by-name', 'C28', (VM, '	if(cl == c2) {\n		return true;', '	if(cl == c2 || (cl && c2 && cl->nativeprefix == c2->nativeprefix)) {\n		return true;'))
bug('subtype-swapped', 'C28', (VM, 'HasBaseClass(env, JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(ENV::FromJNIEnv(env), c1).get(), JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(ENV::FromJNIEnv(env), c2).get())', 'HasBaseClass(env, JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(ENV::FromJNIEnv(env), c2).get(), JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(ENV::FromJNIEnv(env), c1).get())'))
bug('subtype-interface-skip', 'C28', (VM, HB, '			if(i && i->baseclasses && HasBaseClass(env, i.get(), c2)) {\n				return true;\n			}\n'))
bug('superclass-last', 'C28', (VM, '(cl->baseclasses(ENV::FromJNIEnv(env))[0]).get()', '(cl->baseclasses(ENV::FromJNIEnv(env)).back()).get()'))
bug('superclass-null-interface', 'C28', (VM, 'return cl->baseclasses ? (jclass)', 'return cl->baseclasses && cl->Instantiate ? (jclass)'))
bug('bases-only-first', 'C28', ('include/jnivm/extends.h', '                return ret;', '                if(ret.size() > 2) ret.pop_back();\r\n                return ret;'))
bug('bases-duplicate', 'C28', ('include/jnivm/extends.h', 'env->GetVM()->typecheck[typeid(BaseClasses)]...', 'env->GetVM()->typecheck[typeid(typename std::tuple_element<0, BaseClasseTuple>::type)], env->GetVM()->typecheck[typeid(BaseClasses)]...'))
bug('hierarchy-not-recorded', 'C28', ('include/jnivm/env.h', 'c->baseclasses = &T::GetBaseClasses;', 'if(!c->baseclasses) c->baseclasses = &Object::GetBaseClasses;'))
ref('subtype-early', 'C28 C05', (VM, '''	if(cl->baseclasses) {
		for(auto&& i : cl->baseclasses(ENV::FromJNIEnv(env))) {
			if(i && HasBaseClass(env, i.get(), c2)) {
				return true;
			}
		}
	}
	return false;''', '''	if(!cl->baseclasses) return false;
	auto bases = cl->baseclasses(ENV::FromJNIEnv(env));
	for(size_t k = 0; k < bases.size(); ++k) {
		Class* base = bases[k].get();
		if(base == nullptr) continue;
		if(HasBaseClass(env, base, c2)) return true;
	}
	return false;'''))
ref('subtype-found-flag', 'C28', (VM, '''	if(cl->baseclasses) {
		for(auto&& i : cl->baseclasses(ENV::FromJNIEnv(env))) {
			if(i && HasBaseClass(env, i.get(), c2)) {
				return true;
			}
		}
	}
	return false;''', '''	bool found = false;
	if(cl->baseclasses) {
		for(auto&& i : cl->baseclasses(ENV::FromJNIEnv(env))) {
			if(i && HasBaseClass(env, i.get(), c2)) {
				found = true;
				break;
			}
		}
	}
	return found;'''))
ref('superclass-local', 'C28', (VM, '	return cl->baseclasses ? (jclass)(cl->baseclasses(ENV::FromJNIEnv(env))[0]).get() : nullptr;', '	if(!cl->baseclasses) return nullptr;\n	auto bases = cl->baseclasses(ENV::FromJNIEnv(env));\n	return (jclass)bases.front().get();'))
ref('isinstance-local', 'C28 C22', (VM, 'return JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo) && IsAssignableFrom(env, GetObjectClass(env, jo), cl);', 'if(!JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo)) return JNI_FALSE;\n	jclass own = GetObjectClass(env, jo);\n	return IsAssignableFrom(env, own, cl);'))
# ---------------------------------------------------------------- C15, C16
FJ = 'src/fake-jni/fake-jni.cpp'; FV = 'src/fake-jni/jvm.cpp'; EV = 'src/jnivm/env.cpp'; FH = 'include/fake-jni/fake-jni.h'; EH = 'include/jnivm/env.h'; VH = 'include/jnivm/vm.h'
bug('env-owner-from-template', 'C16', (EV, '    ninterface.reserved0 = this;\n', '    if(!ninterface.reserved0) ninterface.reserved0 = this;\n'))
bug('env-override-forgets-owner', 'C16', (EV, '	this->ninterface.reserved0 = reserved0;\n', '	if(ninterface.reserved0) this->ninterface.reserved0 = reserved0;\n'))
bug('env-override-owner-read-late', 'C16', (EV, '	auto reserved0 = this->ninterface.reserved0;\n	this->ninterface = ninterface;\n', '	this->ninterface = ninterface;\n	auto reserved0 = this->ninterface.reserved0;\n'))
bug('env-override-writes-then-refuses', 'C16', (EV, '''	if(ninterface.reserved0 != nullptr && ninterface.reserved0 != this->ninterface.reserved0) {
		throw std::runtime_error("Updating `ninterface.reserved0` to a different value is forbidden");
	}
	auto reserved0 = this->ninterface.reserved0;
	this->ninterface = ninterface;
''', '''	auto reserved0 = this->ninterface.reserved0;
	this->ninterface = ninterface;
	if(ninterface.reserved0 != nullptr && ninterface.reserved0 != reserved0) {
		this->ninterface.reserved0 = reserved0;
		throw std::runtime_error("Updating `ninterface.reserved0` to a different value is forbidden");
	}
'''))
bug('vm-override-accepts-foreign', 'C16', (VM, 'if(iinterface.reserved0 != nullptr && iinterface.reserved0 != this->iinterface.reserved0) {', 'if(iinterface.reserved0 != nullptr && this->iinterface.reserved0 == nullptr) {'))
bug('vm-override-partial', 'C16', (VM, '	this->iinterface = iinterface;\n', '	this->iinterface.AttachCurrentThread = iinterface.AttachCurrentThread;\n	this->iinterface.DetachCurrentThread = iinterface.DetachCurrentThread;\n	this->iinterface.GetEnv = iinterface.GetEnv;\n'))
bug('factory-first-hook-only', 'C16', (FV, '        hook(tmpl);\n', '        hook(tmpl);\n        if(tmpl.reserved3) break;\n'))
bug('factory-hooks-after-env', 'C16', (VM, '''	auto tmpl = GetNativeInterfaceTemplate();
	for(auto && hook : jnienvhooks) {
        hook(tmpl);
    }
	return std::make_shared<ENV>(this, tmpl);''', '''	auto tmpl = GetNativeInterfaceTemplate();
	auto env = std::make_shared<ENV>(this, tmpl);
	for(auto && hook : jnienvhooks) {
        hook(tmpl);
    }
	return env;'''))
bug('factory-hooks-change-vm-table', 'C16', (VM, '''	auto tmpl = GetNativeInterfaceTemplate();
	for(auto''', '''	auto& tmpl = const_cast<JNINativeInterface&>(GetNativeInterfaceTemplate());
	for(auto'''))
bug('baron-fresh-template', 'C16', (BJ, '    auto tmpl = GetNativeInterfaceTemplate();\n', '    auto tmpl = GetNativeInterfaceTemplate<false>();\n'))
bug('baron-undoes-hook', 'C16', (BJ, '    tmpl.GetMethodID = [](', '    tmpl.GetSuperclass = GetNativeInterfaceTemplate().GetSuperclass;\n    tmpl.GetMethodID = ['+']('))
bug('fakejni-env-table-of-vm', 'C16', (FH, 'functions = GetJNIEnv()->functions;', 'functions = &interface;'))
bug('fakejni-copy-invoke-table', 'C16', (FV, '    functions = GetJavaVM()->functions;\n', '    static JNIInvokeInterface table = *GetJavaVM()->functions;\n    functions = &table;\n'))
bug('env-vm-lookup', 'C16', (FV, 'std::make_shared<Env>(*this, static_cast<jnivm::VM*>(this), tmpl);', 'std::make_shared<Env>(*this, jnienvhooks.size() ? nullptr : static_cast<jnivm::VM*>(this), tmpl);'))
bug('addhook-replaces', 'C16', (VH, 'jnienvhooks.emplace_back(std::move(hook));', 'if(jnienvhooks.size() < 4) jnienvhooks.emplace_back(std::move(hook));'))
bug('fromjnienv-null', 'C16', (EV, 'if(env == nullptr || env->functions->reserved0 == nullptr)', 'if(env->functions->reserved0 == nullptr)'))
bug('attach-always-creates', 'C15', (VM, '				if(!nenv) {\n					nenv = nvm.CreateEnv();', '				if(!nenv || args) {\n					nenv = nvm.CreateEnv();'))
bug('detach-drops-last', 'C15', (VM, '				auto f = nvm.jnienvs.find(pthread_self());\n				if(f != fe) {', '				auto f = nvm.jnienvs.find(pthread_self());\n				if(f == fe) f = nvm.jnienvs.begin();\n				if(f != fe) {'))
bug('detach-keeps-entry', 'C15', (VM, '					nvm.jnienvs.erase(f);\n', '					if(env.use_count() == 1) nvm.jnienvs.erase(f);\n'))
bug('getenv-first-thread', 'C15', (VM, '	return jnienvs[pthread_self()];\n#else', '	auto f = jnienvs.find(pthread_self());\n	return f != jnienvs.end() ? f->second : jnienvs[pthread_t()];\n#else'))
bug('context-always-detaches', 'C15', (FJ, '		this->vm = nullptr;\n	}\n}', '		this->vm = &env2->getVM() != &vm ? &vm : nullptr;\n	}\n}'))
bug('context-never-forgets', 'C15', (FJ, '''FakeJni::JniEnvContext::JniEnvContext() {
	env2 = env.env.lock();
	this->vm = nullptr;''', '''FakeJni::JniEnvContext::JniEnvContext() {
	env2 = env.env.lock();
	this->vm = env2 ? nullptr : vm;'''))
bug('context-detaches-current', 'C15', (FJ, '	if(this->vm) {\n		vm->DetachCurrentThread();', '	if(env2 && env2.use_count() <= 2) {\n		env2->getVM().DetachCurrentThread();'))
bug('context-plain-static', 'C15', (FJ, 'thread_local FakeJni::ThreadContext FakeJni::JniEnvContext::env = {};', 'FakeJni::ThreadContext FakeJni::JniEnvContext::env = {};'), (FH, '        static thread_local ThreadContext env;', '        static ThreadContext env;'))
bug('thread-end-detach-only-last', 'C15', (FJ, '	if(_env) {\n		_env->getVM()', '	if(_env && _env.use_count() > 2) {\n		_env->getVM()'))
bug('fakejni-second-env', 'C15', (FV, 'if(FakeJni::JniEnvContext::env.env.lock()) {', 'auto cur = FakeJni::JniEnvContext::env.env.lock();\n    if(cur && &cur->getVM() == this) {'))
bug('fakejni-context-not-set', 'C15', (FV, '    FakeJni::JniEnvContext::env.env = ret;\n', '    if(FakeJni::JniEnvContext::env.env.use_count()) FakeJni::JniEnvContext::env.env = ret;\n'))
bug('frame-pops-current', 'C15', (FH, '        ~LocalFrame() {\n            (&getJniEnv())->PopLocalFrame(nullptr);', '        ~LocalFrame() {\n            if(JniEnvContext::env.env.lock()) JniEnvContext::env.env.lock()->PopLocalFrame(nullptr);'))
bug('frame-skips-empty-push', 'C15', (FH, '        LocalFrame(const Jvm& vm, int size = 0) : JniEnvContext((Jvm&)vm) {\n            (&getJniEnv())->PushLocalFrame(size);', '        LocalFrame(const Jvm& vm, int size = 0) : JniEnvContext((Jvm&)vm) {\n            if(size >= 0) (&getJniEnv())->PushLocalFrame(size);'))
ref('env-override-copy-first', 'C16', (EV, '''	auto reserved0 = this->ninterface.reserved0;
	this->ninterface = ninterface;
	this->ninterface.reserved0 = reserved0;''', '''	JNINativeInterface next = ninterface;
	next.reserved0 = this->ninterface.reserved0;
	this->ninterface = next;'''))
ref('override-nested-ifs', 'C16', (VM, '''	if(iinterface.reserved0 != nullptr && iinterface.reserved0 != this->iinterface.reserved0) {
		throw std::runtime_error("Updating `iinterface.reserved0` to a different value is forbidden");
	}
	auto reserved0 = this->iinterface.reserved0;''', '''	auto reserved0 = this->iinterface.reserved0;
	if(iinterface.reserved0 != nullptr) {
		if(iinterface.reserved0 != reserved0)
			throw std::runtime_error("Updating `iinterface.reserved0` to a different value is forbidden");
	}'''))
ref('factory-indexed-hooks', 'C16', (VM, '	for(auto && hook : jnienvhooks) {\n        hook(tmpl);\n    }\n	return', '	for(size_t i = 0; i < jnienvhooks.size(); ++i) {\n        jnienvhooks[i](tmpl);\n    }\n	return'))
ref('factory-helper', 'C16 C15', (VM, '''std::shared_ptr<jnivm::ENV> jnivm::VM::CreateEnv() {
	auto tmpl = GetNativeInterfaceTemplate();
	for(auto && hook : jnienvhooks) {
        hook(tmpl);
    }
	return std::make_shared<ENV>(this, tmpl);''', '''static void ApplyHooks(const std::vector<std::function<void(JNINativeInterface&)>>& hooks, JNINativeInterface& tmpl) {
	for(const auto& hook : hooks) hook(tmpl);
}
std::shared_ptr<jnivm::ENV> jnivm::VM::CreateEnv() {
	JNINativeInterface tmpl = ninterface;
	ApplyHooks(jnienvhooks, tmpl);
	auto created = std::make_shared<ENV>(this, tmpl);
	return created;'''))
ref('fakejni-factory-order', 'C15 C16', (FV, '''    FakeJni::JniEnvContext::env.env = ret;
    return std::shared_ptr<jnivm::ENV>(ret, jnivm::ENV::FromJNIEnv(ret.get()));''', '''    std::shared_ptr<jnivm::ENV> base = ret;
    FakeJni::JniEnvContext::env.env = ret;
    return base;'''))
ref('vm-ctor-table-in-body', 'C16', (VM, '	javaVM.functions = &iinterface;\n	if(skipInit == false)\n		initialize();', '	javaVM.functions = &this->iinterface;\n	if(!skipInit) {\n		this->initialize();\n	}'))
ref('attach-find-emplace', 'C15', (VM, '''				auto&& nenv = nvm.jnienvs[pthread_self()];
				if(!nenv) {
					nenv = nvm.CreateEnv();
				}
				if(penv) {''', '''				auto self = pthread_self();
				std::shared_ptr<ENV>& nenv = nvm.jnienvs[self];
				if(nenv == nullptr) {
					auto created = nvm.CreateEnv();
					nenv = std::move(created);
				}
				if(penv != nullptr) {'''))
ref('detach-by-key', 'C15', (VM, '''				auto fe = nvm.jnienvs.end();
				auto f = nvm.jnienvs.find(pthread_self());
				if(f != fe) {
					env = std::move(f->second);
					nvm.jnienvs.erase(f);
				}''', '''				auto f = nvm.jnienvs.find(pthread_self());
				if(f == nvm.jnienvs.end()) return JNI_OK;
				env.swap(f->second);
				nvm.jnienvs.erase(f);'''))
ref('context-ctor-branches', 'C15', (FJ, '''	env2 = env.env.lock();
    if (!env2) {
		this->vm = &vm;
        vm.AttachCurrentThread(nullptr, nullptr);
		env2 = env.env.lock();
    } else {
		this->vm = nullptr;
	}''', '''	this->vm = nullptr;
	env2 = env.env.lock();
	if (env2) return;
	vm.AttachCurrentThread(nullptr, nullptr);
	this->vm = &vm;
	env2 = env.env.lock();'''))
ref('context-init-list', 'C15', (FJ, '''FakeJni::JniEnvContext::JniEnvContext() {
	env2 = env.env.lock();
	this->vm = nullptr;
}''', '''FakeJni::JniEnvContext::JniEnvContext() : vm(nullptr), env2(env.env.lock()) {
}'''))
ref('thread-context-early', 'C15', (FJ, '''	auto _env = env.lock();
	if(_env) {
		_env->getVM().DetachCurrentThread();
		_env = nullptr;
		if(env.lock()) {
			abort();
		}
	}''', '''	auto current = env.lock();
	if(!current) return;
	FakeJni::Jvm& owner = current->getVM();
	owner.DetachCurrentThread();
	current.reset();
	if(!env.expired()) abort();'''))
# ---------------------------------------------------------------- C17
bug('lib-onload-twice-static', 'C17', (FJ, '			path = rpath;\n', '			path = rpath;\n			auto plain = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, "JNI_OnLoad");\n			if(plain) plain(javaVM, nullptr);\n'))
bug('lib-static-name-forgotten', 'C17', (FJ, '			path = rpath;\n', '			if(loptions.dlsym(handle, ("JNI_OnLoad_" + rpath).data())) path = rpath;\n'))
bug('lib-static-uses-plain-unload', 'C17', (FJ, 'path.empty() ? "JNI_OnUnload"', 'path.size() < 2 ? "JNI_OnUnload"'))
bug('lib-close-before-unload', 'C17', (FJ, '''		if (JNI_OnUnload) {
			JNI_OnUnload(javaVM, nullptr);
		}
		loptions.dlclose(handle);''', '''		loptions.dlclose(handle);
		if (JNI_OnUnload) {
			JNI_OnUnload(javaVM, nullptr);
		}'''))
bug('lib-close-only-with-unload', 'C17', (FJ, '''			JNI_OnUnload(javaVM, nullptr);
		}
		loptions.dlclose(handle);''', '''			JNI_OnUnload(javaVM, nullptr);
			loptions.dlclose(handle);
		}'''))
bug('lib-static-not-closed', 'C17', (FJ, '		loptions.dlclose(handle);\n', '		if(path.empty()) loptions.dlclose(handle);\n'))
bug('lib-real-dlclose', 'C17', (FJ, '		loptions.dlclose(handle);\n', '		::dlclose(handle);\n'))
bug('lib-real-dlsym-fallback', 'C17', (FJ, '		if (JNI_OnUnload) {', '		if (!JNI_OnUnload) JNI_OnUnload = (void (*)(JavaVM* vm, void* reserved))::dlsym(handle, "JNI_OnUnload");\n		if (JNI_OnUnload) {'))
bug('lib-retry-open-leaks', 'C17', (FJ, '	} else if(!rpath.empty()', '		if(!JNI_OnLoad && rpath.find("/") == std::string::npos) handle = loptions.dlopen(("./" + rpath).c_str(), RTLD_LAZY);\n	} else if(!rpath.empty()'))
bug('lib-hook-without-open', 'C17', (FJ, '		handle = loptions.dlopen(nullptr, RTLD_LAZY);\n		if(handle) {', '		handle = loptions.dlopen(nullptr, RTLD_LAZY);\n		{'))
bug('lib-onload-null-hook', 'C17', (FJ, '			auto JNI_OnLoad = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, ("JNI_OnLoad_" + rpath).data());\n			if (JNI_OnLoad) {', '			auto JNI_OnLoad = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, ("JNI_OnLoad_" + rpath).data());\n			if (handle) {'))
bug('lib-attach-same-ignored', 'C17', (FJ, '	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });', '	if(!loptions.dlclose) return;\n	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });'))
bug('lib-attach-default-options', 'C17', (FJ, 'std::make_unique<libinst>(rpath, this, loptions) });', 'std::make_unique<libinst>(rpath, this, options.empty() ? loptions : LibraryOptions()) });'))
bug('lib-remove-all-when-empty', 'C17', (FJ, '	libraries.erase(rpath);', '	if(rpath.empty()) libraries.clear(); else libraries.erase(rpath);'))
bug('lib-remove-by-options', 'C17', (FJ, '	libraries.erase(rpath);', '	libraries.erase(options.empty() ? rpath : options);'))
bug('lib-options-swapped', 'C17', (FJ, ': dlopen(dlopen), dlsym(dlsym), dlclose(dlclose) {', ': dlopen(dlopen), dlsym(dlsym), dlclose(dlclose ? dlclose : ::dlclose) {'))
bug('lib-no-unload-when-static', 'C17', (FJ, '		if (JNI_OnUnload) {', '		if (JNI_OnUnload && path.find("_") == std::string::npos) {'))
ref('lib-helpers', 'C17', (FJ, '''FakeJni::Jvm::libinst::libinst(const''', '''static void RunLoadHook(const FakeJni::LibraryOptions& options, void* lib, JavaVM* javaVM, const char* symbol) {
	void* sym = options.dlsym(lib, symbol);
	if(sym == nullptr) return;
	((jint (*)(JavaVM* vm, void* reserved))sym)(javaVM, nullptr);
}

FakeJni::Jvm::libinst::libinst(const'''), (FJ, '''		auto JNI_OnLoad = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, "JNI_OnLoad");
		if (JNI_OnLoad) {
			JNI_OnLoad(javaVM, nullptr);
		}
''', '''		RunLoadHook(loptions, handle, javaVM, "JNI_OnLoad");
'''), (FJ, '''			auto JNI_OnLoad = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, ("JNI_OnLoad_" + rpath).data());
			if (JNI_OnLoad) {
				JNI_OnLoad(javaVM, nullptr);
			}
''', '''			std::string symbol = "JNI_OnLoad_" + rpath;
			RunLoadHook(loptions, handle, javaVM, symbol.c_str());
'''))
ref('lib-dtor-early', 'C17', (FJ, '''	if(handle) {
		auto JNI_OnUnload = (void (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, path.empty() ? "JNI_OnUnload" : ("JNI_OnUnload_" + path).data() );
		if (JNI_OnUnload) {
			JNI_OnUnload(javaVM, nullptr);
		}
		loptions.dlclose(handle);
	}''', '''	if(!handle) return;
	std::string name = "JNI_OnUnload";
	if(!path.empty()) name = "JNI_OnUnload_" + path;
	auto unload = (void (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, name.c_str());
	if (unload != nullptr)
		unload(javaVM, nullptr);
	loptions.dlclose(handle);'''))
ref('lib-member-options', 'C17', (FJ, '	handle = loptions.dlopen(rpath.c_str(), RTLD_LAZY);\n', '	handle = this->loptions.dlopen(rpath.data(), RTLD_LAZY);\n'))
ref('lib-attach-emplace', 'C17', (FJ, '	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });', '	auto lib = std::make_unique<libinst>(rpath, this, loptions);\n	libraries.emplace(rpath, std::move(lib));'))
ref('lib-remove-find', 'C17', (FJ, '	libraries.erase(rpath);', '	auto f = libraries.find(rpath);\n	if(f != libraries.end()) libraries.erase(f);'))
ref('lib-attach-existing', 'C17', (FJ, '	libraries.insert({ rpath', '	if(libraries.find(rpath) != libraries.end()) return;\n	libraries.insert({ rpath'))
# ---- cleared weak references
bug('dead-weak-length', 'C22', (AR, "    return arr ? arr->getSize() : 0;", "    return a ? arr->getSize() : 0;"))
bug('dead-weak-chars', 'C22', (ST, "    return cstr ? cstr->data() : \"\";", "    return str ? cstr->data() : \"\";"))
bug('dead-weak-region', 'C22', (ST, "    if(!cstr) {\n        return;", "    if(!str) {\n        return;"))
bug('dead-weak-class', 'C22', (VM, "	return o ? JNITypes", "	return jo ? JNITypes"))
ref('dead-weak-early', 'C22 C09 C21', (AR, "    return arr ? arr->getSize() : 0;", "    if(!arr) return 0;\n    return arr->getSize();"))
ref('dead-weak-class-early', 'C22 C09 C21 C28', (VM, "	return o ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), o->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass(\"Invalid\");", "	if(!o) {\n		return env->FindClass(\"Invalid\");\n	}\n	auto cl = o->getClassInternal(ENV::FromJNIEnv(env));\n	return JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), cl);"))
# ---- C10
bug('cls-nested-at-top', 'C10', (FD, '					curc->classes.push_back(next);\n', '					cur->classes.push_back(next);\n'))
bug('cls-prefix-from-cursor', 'C10', (FD, '					curc->classes.push_back(next);\n					next->name = std::move(sname);\n					next->nativeprefix = std::string(prefix, pos);', '					curc->classes.push_back(next);\n					next->name = std::move(sname);\n					next->nativeprefix = std::string(name, pos);'))
bug('cls-prefix-whole', 'C10', (FD, '					curc->classes.push_back(next);\n					next->name = std::move(sname);\n					next->nativeprefix = std::string(prefix, pos);', '					curc->classes.push_back(next);\n					next->name = std::move(sname);\n					next->nativeprefix = prefix;'))
bug('cls-nested-unrecorded', 'C10', (FD, '					next->nativeprefix = std::string(prefix, pos);\n					vm->classes[next->nativeprefix] = next;', '					next->nativeprefix = std::string(prefix, pos);\n					if(pos == end) vm->classes[next->nativeprefix] = next;'))
bug('cls-array-short-slash', 'C10', (FD, 'lastslash != nullptr ? lastslash + 1 : name', 'lastslash != nullptr ? lastslash : name'))
bug('cls-array-short-first', 'C10', (FD, "strrchr(name, '/')", "strchr(name, '/')"))
bug('cls-namespace-prefix', 'C10', (FD, '																	return namesp->name == sname;', '																	return namesp->name.compare(0, sname.size(), sname) == 0;'))
bug('cls-nocase', 'C10', (FD, '''															[&sname](std::shared_ptr<Class> &namesp) {
																return namesp->name == sname;''', '''															[&sname](std::shared_ptr<Class> &namesp) {
																return namesp->name.size() == sname.size();'''))
bug('cls-search-skips-first', 'C10', (FD, 'auto cl = std::find_if(curc->classes.begin(), curc', 'auto cl = std::find_if(curc->classes.size() > 1 ? curc->classes.begin() + 1 : curc->classes.begin(), curc'))
bug('cls-new-namespace-not-entered', 'C10', (FD, '				next = *namsp;\n', '				next = cur = *namsp;\n'), (FD, '			cur = next;\n', ''))
bug('cls-namespace-not-kept', 'C10', (FD, '				cur->namespaces.push_back(next);\n', '				if(!sname.empty()) cur->namespaces.push_back(next);\n'))
bug('cls-namespace-name-late', 'C10', (FD, '				next->name = std::move(sname);\n			}\n			cur = next;', '				if(cur.get() != &vm->np) next->name = std::move(sname);\n			}\n			cur = next;'))
bug('cls-map-unchecked', 'C10', (FD, '		vm->classes[name] = curc;', '		vm->classes[curc->name] = curc;'))
bug('cls-type-first-name-wins', 'C10', ('include/jnivm/env.h', '    auto& c = vm->typecheck[typeid(T)] = GetClass(name);', '	auto& c = vm->typecheck[typeid(T)];\n	if(!c) c = GetClass(name);'))
bug('cls-declare-with-l', 'C10', (FD, 'std::string classpath(cur + 1, cend);', 'std::string classpath(cur + (cur != signature), cend);'))
bug('cls-declare-generic', 'C10', (FD, "auto cend = std::find(cur, end, ';');", "auto cend = std::find_if(cur, end, [](char c) { return c == ';' || c == '$'; });"))
bug('cls-find-descriptor', 'C10', (VM, '		c = InternalFindClass(&nenv, name, returnZero, true);', "		c = InternalFindClass(&nenv, *name == 'L' ? name + 1 : name, returnZero, true);"))
bug('cls-getclass-trim', 'C10', ('src/jnivm/env.cpp', '	return InternalFindClass(this, name);', "	return InternalFindClass(this, *name == '/' ? name + 1 : name);"))
bug('cls-object-array-of-array', 'C10', (AR, "cl0->nativeprefix[0] == '[' ?", "cl0->nativeprefix[0] == '[' && cl0->nativeprefix[1] != '[' ?"))
bug('cls-unregister-forgets', 'C10', (VM, '		clazz->natives.clear();\n', '		clazz->natives.clear();\n		if(clazz->methods.empty()) ENV::FromJNIEnv(env)->GetVM()->classes.erase(clazz->nativeprefix);\n'))
bug('cls-native-renames', 'C10', (VM, '''	auto&& clazz = JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(ENV::FromJNIEnv(env), c);
	if(!clazz) {''', '''	auto&& clazz = JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(ENV::FromJNIEnv(env), c);
	if(clazz && clazz->name.empty()) clazz->name = clazz->nativeprefix;
	if(!clazz) {'''))

ref('cls-for-loop', 'C10 C11 C12 C05', (FD, """			auto namsp = std::find_if(cur->namespaces.begin(), cur->namespaces.end(),
																[&sname](std::shared_ptr<Namespace> &namesp) {
																	return namesp->name == sname;
																});
			std::shared_ptr<Namespace> next;
			if (namsp != cur->namespaces.end()) {
				next = *namsp;
			} else {""", """			std::shared_ptr<Namespace> next;
			for(auto && candidate : cur->namespaces) {
				if(candidate->name == sname) {
					next = candidate;
					break;
				}
			}
			if(!next) {"""))
ref('cls-helper', 'C10 C12 C05 C18', (FD, """std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env""", """namespace jnivm {
	static std::shared_ptr<Class> MakeClass(VM* vm, std::vector<std::shared_ptr<Class>>& classes, std::string&& sname, std::string&& full) {
		auto next = std::make_shared<Class>();
		classes.push_back(next);
		next->name = std::move(sname);
		next->nativeprefix = std::move(full);
		vm->classes[next->nativeprefix] = next;
		return next;
	}
}
std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env"""), (FD, """					next = std::make_shared<Class>();
					curc->classes.push_back(next);
					next->name = std::move(sname);
					next->nativeprefix = std::string(prefix, pos);
					vm->classes[next->nativeprefix] = next;
""", """					next = MakeClass(vm, curc->classes, std::move(sname), std::string(prefix, pos));
"""), (FD, """					next = std::make_shared<Class>();
					cur->classes.push_back(next);
					next->name = std::move(sname);
					next->nativeprefix = std::string(prefix, pos);
					vm->classes[next->nativeprefix] = next;
""", """					next = MakeClass(vm, cur->classes, std::move(sname), std::string(prefix, pos));
"""))
ref('cls-one-table', 'C10 C12', (FD, """			if (curc) {
				auto cl = std::find_if(curc->classes.begin(), curc->classes.end(),
															[&sname](std::shared_ptr<Class> &namesp) {
																return namesp->name == sname;
															});
				if (cl != curc->classes.end()) {
					next = *cl;
				} else {
					if(returnZero) return nullptr;
					next = std::make_shared<Class>();
					curc->classes.push_back(next);
					next->name = std::move(sname);
					next->nativeprefix = std::string(prefix, pos);
					vm->classes[next->nativeprefix] = next;
				}
			} else {
				auto cl = std::find_if(cur->classes.begin(), cur->classes.end(),
															[&sname](std::shared_ptr<Class> &namesp) {
																return namesp->name == sname;
															});
				if (cl != cur->classes.end()) {
					next = *cl;
				} else {
					if(returnZero) return nullptr;
					next = std::make_shared<Class>();
					cur->classes.push_back(next);
					next->name = std::move(sname);
					next->nativeprefix = std::string(prefix, pos);
					vm->classes[next->nativeprefix] = next;
				}
			}
""", """			auto& table = curc ? curc->classes : cur->classes;
			auto cl = std::find_if(table.begin(), table.end(),
														[&sname](std::shared_ptr<Class> &namesp) {
															return namesp->name == sname;
														});
			if (cl != table.end()) {
				next = *cl;
			} else {
				if(returnZero) return nullptr;
				next = std::make_shared<Class>();
				table.push_back(next);
				next->name = std::move(sname);
				next->nativeprefix = std::string(prefix, pos);
				vm->classes[next->nativeprefix] = next;
			}
"""))
ref('cls-fill-then-push', 'C10 C12', (FD, """					curc->classes.push_back(next);
					next->name = std::move(sname);
					next->nativeprefix = std::string(prefix, pos);
					vm->classes[next->nativeprefix] = next;
""", """					next->name = sname;
					next->nativeprefix = std::string(prefix, pos);
					curc->classes.push_back(next);
					vm->classes[next->nativeprefix] = next;
"""))
ref('cls-array-rename', 'C10 C12', (FD, """		const char * lastslash = strrchr(name, '/');
		curc->name = lastslash != nullptr ? lastslash + 1 : name;
		curc->nativeprefix = name;
		vm->classes[name] = curc;""", """		curc->nativeprefix = name;
		if(const char * slash = strrchr(name, '/')) {
			curc->name = slash + 1;
		} else {
			curc->name = name;
		}
		vm->classes[curc->nativeprefix] = curc;"""))
ref('cls-getclass-temp', 'C10', ('include/jnivm/env.h', '    auto& c = vm->typecheck[typeid(T)] = GetClass(name);', '	auto found = GetClass(name);\n	auto& c = vm->typecheck[std::type_index(typeid(T))];\n	c = found;'))
ref('cls-compare-fn', 'C10', (FD, """																	return namesp->name == sname;""", """																	return namesp->name.compare(sname) == 0;"""))

# ---- C07 handles are held
bug('hnd-array-element-raw', 'C07', (AR, '    return JNITypes<std::shared_ptr<Object>>::ToJNIType(ENV::FromJNIEnv(env), (std::shared_ptr<Object>) (*JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a))[i]);', '    auto o = (std::shared_ptr<Object>) (*JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a))[i];\n    return (jobject)o.get();'))
bug('hnd-newlocal-when-shared', 'C07', (VM, '	nenv.localframe.front().emplace_back(obj);', '	if(obj.use_count() < 6) nenv.localframe.front().emplace_back(obj);'))
bug('hnd-exception-raw', 'C07', (VM, 'return JNITypes<std::shared_ptr<Throwable>>::ToJNIType(ENV::FromJNIEnv(env), (ENV::FromJNIEnv(env))->current_exception) ;', 'return (jthrowable)(Object*)(ENV::FromJNIEnv(env))->current_exception.get();'))
bug('hnd-tojni-classless', 'C07', (JT, '        env->localframe.front().push_back(std::move(obj));', '        if(clazz || !obj->clazz.expired()) env->localframe.front().push_back(std::move(obj));'))
bug('hnd-tojni-ptr-unowned', 'C07', (JT, 'return ToJNIType(env, val ? std::shared_ptr<Y>(val, p) : std::make_shared<Y>(*p));', 'return ToJNIType(env, val ? std::shared_ptr<Y>(val, p) : std::shared_ptr<Y>(p, [](Y*) {}));'))
bug('hnd-tojni-ref-empty-owner', 'C07', (JT, 'return ToJNIType(env, val ? std::shared_ptr<Y>(val, &p) : std::make_shared<Y>(p));', 'return ToJNIType(env, std::shared_ptr<Y>(val, &p));'))
bug('hnd-global-weak-free', 'C07', (VM, '	nvm.globals.emplace_back(obj);', '	if(!std::dynamic_pointer_cast<Weak>(obj)) nvm.globals.emplace_back(obj);'))
bug('hnd-default-dummy-raw', 'C07', ('src/jnivm/internal/method.cpp', '                    return JNITypes<std::shared_ptr<Object>>::ToJNIReturnType(env, dummy);', '                    return (jobject)dummy.get();'))
bug('hnd-invoke-raw-receiver', 'C07', ('include/jnivm/method.h', 'return j2invoke<jobject>(env, JNITypes<jnivm::Object>::ToJNIType(ENV::FromJNIEnv(&env), obj->shared_from_this()), params...);', 'return j2invoke<jobject>(env, (jobject)obj, params...);'))
bug('hnd-raw-arg-unregistered', 'C07', (JT, '        (void)jnivm::JNITypes<jnivm::Object>::ToJNIType(env, org);\n', ''))
bug('hnd-string-own-frame', 'C07', (ST, '    return JNITypes<std::shared_ptr<String>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<String>(str ? str : ""));', '    auto nenv = ENV::FromJNIEnv(env);\n    nenv->localframe.emplace_front();\n    auto r = JNITypes<std::shared_ptr<String>>::ToJNIType(nenv, std::make_shared<String>(str ? str : ""));\n    nenv->localframe.pop_front();\n    return r;'))
bug('hnd-bytebuffer-cached', 'C07', ('src/jnivm/internal/bytebuffer.cpp', '    return JNITypes<std::shared_ptr<ByteBuffer>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<ByteBuffer>(buffer, capacity));', '    static thread_local std::shared_ptr<ByteBuffer> last;\n    last = std::make_shared<ByteBuffer>(buffer, capacity);\n    return (jobject)(Object*)last.get();'))
bug('hnd-array-first-env', 'C07', (AR, '    return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);', '    static ENV* home = ENV::FromJNIEnv(env);\n    return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(home, arr);'))
bug('hnd-createlocal-raw', 'C07', ('include/fake-jni/fake-jni.h', 'return jnivm::JNITypes<std::shared_ptr<JObject>>::ToJNIReturnType(this, obj);', 'return (jobject)obj.get();'))
bug('hnd-poplocal-raw-result', 'C07', (VM, '		return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);\n	}\n#endif\n	return result;', '		return (jobject)res.get();\n	}\n#endif\n	return result;'))
bug('hnd-tojni-in-oldest', 'C07', (JT, '        env->localframe.front().push_back(std::move(obj));', '        auto& frame = env->localframe.front();\n        if(frame.empty() || frame.back() != obj) { frame.clear(); frame.push_back(std::move(obj)); }'))
ref('hnd-newlocal-via-tojni', 'C07 C06 C08', (VM, '	nenv.localframe.front().emplace_back(obj);\n#endif\n	return (jobject)obj.get();', '	return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, obj);\n#endif\n	return (jobject)obj.get();'))
ref('hnd-element-temp', 'C07 C25', (AR, '    return JNITypes<std::shared_ptr<Object>>::ToJNIType(ENV::FromJNIEnv(env), (std::shared_ptr<Object>) (*JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a))[i]);', '    auto nenv = ENV::FromJNIEnv(env);\n    auto arr = JNITypes<std::shared_ptr<Array<Object>>>::JNICast(nenv, a);\n    std::shared_ptr<Object> element = (*arr)[i];\n    auto handle = JNITypes<std::shared_ptr<Object>>::ToJNIType(nenv, element);\n    return handle;'))
ref('hnd-tojni-push-first', 'C07 C06', (JT, '''        auto ref = (B)obj.get();
        env->localframe.front().push_back(std::move(obj));
        // Return jni Reference
        return ref;''', '''        auto& frame = env->localframe.front();
        frame.emplace_back(obj);
        return (B)obj.get();'''))
ref('hnd-ptr-branches', 'C07', (JT, '            return ToJNIType(env, val ? std::shared_ptr<Y>(val, p) : std::make_shared<Y>(*p));', '            if(!val) return ToJNIType(env, std::make_shared<Y>(*p));\n            std::shared_ptr<Y> typed(val, p);\n            return ToJNIType(env, typed);'))
ref('hnd-superclass-local', 'C07 C28', (VM, 'return cl->baseclasses ? (jclass)(cl->baseclasses(ENV::FromJNIEnv(env))[0]).get() : nullptr;', 'if(!cl->baseclasses) return nullptr;\n	auto bases = cl->baseclasses(ENV::FromJNIEnv(env));\n	return JNITypes<std::shared_ptr<Class>>::ToJNIType(ENV::FromJNIEnv(env), bases[0]);'))
ref('hnd-global-inline', 'C07 C08 C05', (VM, '	return NewGlobalRef(env, global);', '	auto&& nvm = *ENV::FromJNIEnv(env)->GetVM();\n	std::lock_guard<std::mutex> guard(nvm.mtx);\n	nvm.globals.push_back(global);\n	return (jobject)global.get();'))
ref('hnd-findclass-raw', 'C07', (FD, '	return JNITypes<std::shared_ptr<Class>>::ToJNIType(ENV::FromJNIEnv(env), InternalFindClass(ENV::FromJNIEnv(env), name, returnZero, trace));', '	auto c = InternalFindClass(ENV::FromJNIEnv(env), name, returnZero, trace);\n	if(!c) return nullptr;\n	return JNITypes<std::shared_ptr<Class>>::ToJNIType(ENV::FromJNIEnv(env), c);'))

# ---- C23 hook parameters
WR = 'include/jnivm/wrap.h'; HM = 'include/jnivm/hookManager.h'; CLH = 'include/jnivm/class.h'
ARGS = "(JNITypes<typename Function::template Parameter<I+sizeof...(EnvOrObjOrClass)>>::JNICast(env, values[I]))..."
SI = "                return funk(AnotherHelper<EnvOrObjOrClass>::GetEnvOrObject(env, obj)..., " + ARGS + ");\n            }\n            static constexpr auto NonVirtual"
bug('hk-slot-shift-env-obj', 'C23', (WR, SI, SI.replace('values[I]', 'values[sizeof...(EnvOrObjOrClass) > 1 ? I + 1 - I / 8 : I]')))
bug('hk-slot-wrap-eight', 'C23', (WR, SI, SI.replace('values[I]', 'values[I & 7]')))
bug('hk-sig-reversed-long', 'C23', (WR, 'return JNITypes<A>::GetJNISignature(env) + UnfoldJNISignature<T...>::GetJNISignature(env);', 'return sizeof...(T) == 2 ? UnfoldJNISignature<T...>::GetJNISignature(env) + JNITypes<A>::GetJNISignature(env) : JNITypes<A>::GetJNISignature(env) + UnfoldJNISignature<T...>::GetJNISignature(env);'))
bug('hk-memfn-sig-offset', 'C23', (WR, 'return "(" + UnfoldJNISignature<typename Function::template Parameter<I+sizeof...(EnvOrObjOrClass)>...>', 'return "(" + UnfoldJNISignature<typename Function::template Parameter<I+(sizeof...(I) > 2 ? 0 : sizeof...(EnvOrObjOrClass))>...>') )
bug('hk-static-property-slot', 'C23', (WR, '            *handle = (JNITypes<typename Function::Return>::JNICast(env, values[0]));\n        }\n        constexpr auto InstanceGet', '            if(!obj) *handle = (JNITypes<typename Function::Return>::JNICast(env, values[0]));\n        }\n        constexpr auto InstanceGet'))
bug('hk-find-forgets-name', 'C23 C11', (HM, 'return f->_static == isStatic && f->name == id && f->type == ssig;', 'return f->_static == isStatic && f->name.size() == id.size() && f->type == ssig;'))
bug('hk-find-forgets-static', 'C23', (HM, 'return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;', 'return !m->native && m->name == id && m->signature == ssig;'))
bug('hk-find-takes-native', 'C23', (HM, 'return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;', 'return m->_static == isStatic && m->name == id && m->signature == ssig;'))
bug('hk-keeps-first-hook', 'C23', (HM, '            method->nativehandle = std::make_shared<W>(typename w::Wrapper {t});', '            if(!method->nativehandle) method->nativehandle = std::make_shared<W>(typename w::Wrapper {t});'))
bug('hk-never-replaces', 'C23', (HM, 'return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;', 'return m->_static == isStatic && !m->native && !m->nativehandle && m->name == id && m->signature == ssig;'))
bug('hk-getter-in-setter', 'C23', (HM, 'true, decltype(&Field::getnativehandle), &Field::getnativehandle>', 'true, decltype(&Field::getnativehandle), &Field::setnativehandle>'))
bug('hk-receiver-unfiltered', 'C23', (CLH, 'if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {\n                        return;\n                    }\n                }\n                using w = Wrap<T, typename Function<T>::template Parameter<0>, ', 'if(oc == env->GetVM()->typecheck.end()) {\n                        return;\n                    }\n                }\n                using w = Wrap<T, typename Function<T>::template Parameter<0>, '))
bug('hk-created-kind', 'C23', (HM, '                method->_static = isStatic;', '                method->_static = isStatic && sizeof(t) > 0 && cl->methods.size();'))
bug('hk-jclass-is-env-class', 'C23', (WR, 'return JNITypes<Class*>::ToJNIType(env, clazz->shared_from_this());', 'return JNITypes<Class*>::ToJNIType(env, clazz->clazz.lock());'))
bug('hk-nonvirtual-twice', 'C23', (WR, '                return InstanceInvoke(funk, env, obj, values);', '                if(!obj) InstanceInvoke(funk, env, obj, values);\n                return InstanceInvoke(funk, env, obj, values);'))
bug('hk-first-param-tag', 'C23', (WR, 'struct StaticFunction : public MethodHandle {\n            public:\n                StaticFunction(T&&t) : t(t) {}\n                T t;\n                virtual ReturnType StaticInvoke(ENV * env, Class* clazz, const jvalue* values, MethodHandleBase<ReturnType>) override {\n                    return JNITypes<typename Function::Return>::ToJNIReturnType(env, t.StaticInvoke(env, clazz, values));', 'struct StaticFunction : public MethodHandle {\n            public:\n                StaticFunction(T&&t) : t(t) {}\n                T t;\n                virtual ReturnType StaticInvoke(ENV * env, Class* clazz, const jvalue* values, MethodHandleBase<ReturnType>) override {\n                    if(!values) return {};\n                    return JNITypes<typename Function::Return>::ToJNIReturnType(env, t.StaticInvoke(env, clazz, values));'))
bug('hk-property-set-narrow', 'C23', (WR, '(JNITypes<std::shared_ptr<typename Function::This>>::JNICast(env, obj).get())->*handle = (JNITypes<typename Function::Return>::JNICast(env, values[0]));', '(JNITypes<std::shared_ptr<typename Function::This>>::JNICast(env, obj).get())->*handle = (JNITypes<typename Function::Return>::JNICast(env, values[0 * sizeof(*values)]));\n            if(std::is_same<typename Function::Return, jchar>::value) (JNITypes<std::shared_ptr<typename Function::This>>::JNICast(env, obj).get())->*handle = (JNITypes<typename Function::Return>::JNICast(env, values[1]));'))
ref('hk-arg-helper', 'C23 C07', (WR, '    template<class Funk, class...EnvOrObjOrClass> struct Obj {', '    template<class P> auto HookArgument(ENV* env, const jvalue* values, size_t at) {\n        const jvalue& v = values[at];\n        return JNITypes<P>::JNICast(env, v);\n    }\n\n    template<class Funk, class...EnvOrObjOrClass> struct Obj {'), (WR, SI, SI.replace(ARGS, 'HookArgument<typename Function::template Parameter<I+sizeof...(EnvOrObjOrClass)>>(env, values, I)...')))
ref('hk-find-loop', 'C23 C11', (HM, """            auto ccl =
                    std::find_if(cl->methods.begin(), cl->methods.end(),
                                            [&id, &ssig](std::shared_ptr<Method> &m) {
                                                return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;
                                            });
            std::shared_ptr<Method> method;
            if (ccl != cl->methods.end()) {
                method = *ccl;
            } else {
                method = std::make_shared<Method>();
                method->name = id;
                method->_static = isStatic;
                method->signature = std::move(ssig);
                cl->methods.push_back(method);
            }
            method->nativehandle = std::make_shared<W>(typename w::Wrapper {t});
        }

        template<class T> static void install(ENV* env, Class * cl, const std::string& id, const std""", """            std::shared_ptr<Method> method;
            for (auto&& m : cl->methods) {
                if (m->native || m->_static != isStatic) continue;
                if (m->signature == ssig && m->name == id) {
                    method = m;
                    break;
                }
            }
            if (!method) {
                method = std::make_shared<Method>();
                cl->methods.push_back(method);
                method->signature = ssig;
                method->name = id;
                method->_static = isStatic;
            }
            auto handle = std::make_shared<W>(typename w::Wrapper {t});
            method->nativehandle = handle;
        }

        template<class T> static void install(ENV* env, Class * cl, const std::string& id, const std"""))
ref('hk-field-helper', 'C23 C11', (HM, '    template<class w, class W, bool isStatic, bool isGetter, class handle_t, handle_t handle> struct PropertyBase {\n        template<class T> static void install(ENV* env, Class * cl, const std::string& id, T&& t) {\n            auto ssig = PropertySignature<isStatic, isGetter, typename w::Wrapper>::Get(env);', """    inline std::shared_ptr<Field> FieldFor(Class* cl, const std::string& id, const std::string& sig, bool st) {
        auto r = std::find_if(cl->fields.begin(), cl->fields.end(), [&](std::shared_ptr<Field> &f) { return f->type == sig && f->_static == st && f->name == id; });
        if (r != cl->fields.end()) return *r;
        auto field = std::make_shared<Field>();
        field->name = id;
        field->_static = st;
        field->type = sig;
        cl->fields.emplace_back(field);
        return field;
    }
    template<class w, class W, bool isStatic, bool isGetter, class handle_t, handle_t handle> struct PropertyBase {
        template<class T> static void install(ENV* env, Class * cl, const std::string& id, T&& t) {
            auto ssig = PropertySignature<isStatic, isGetter, typename w::Wrapper>::Get(env);
            (*FieldFor(cl, id, ssig, isStatic)).*handle = std::make_shared<W>(typename w::Wrapper {t});
        }
        template<class T> static void installOld(ENV* env, Class * cl, const std::string& id, T&& t) {
            auto ssig = PropertySignature<isStatic, isGetter, typename w::Wrapper>::Get(env);"""))
ref('hk-sig-append', 'C23', (WR, 'return JNITypes<A>::GetJNISignature(env) + UnfoldJNISignature<T...>::GetJNISignature(env);', 'std::string sig = JNITypes<A>::GetJNISignature(env);\n            sig += UnfoldJNISignature<T...>::GetJNISignature(env);\n            return sig;'))
ref('hk-filter-first', 'C23', (CLH, 'if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {\n                        return;\n                    }\n                }\n                using w = Wrap<T, typename Function<T>::template Parameter<0>, ', 'bool own = oc != env->GetVM()->typecheck.end() && oc->second.get() == cl;\n                    if(!own) return;\n                }\n                using w = Wrap<T, typename Function<T>::template Parameter<0>, '))

# ---- C02
JV = 'src/jnivm/internal/jValuesfromValist.cpp'; SK = 'src/jnivm/internal/skipJNIType.cpp'; MT = 'src/jnivm/method.cpp'; MH = 'include/jnivm/method.h'; JT = 'include/jnivm/jnitypes.h'; IM = 'src/jnivm/internal/method.cpp'; PJ = 'src/jnivm/internal/codegen/parseJNIType.cpp'
bug('lt-va-long-as-int', 'C02', (JV, 'va_arg(list, jlong)', 'va_arg(list, jint)'))
bug('lt-va-float-direct', 'C02', (JV, 'values.back().f = (jfloat)va_arg(list, jdouble);', 'values.back().d = va_arg(list, jdouble);'))
bug('lt-va-double-as-long', 'C02', (JV, 'values.back().d = va_arg(list, jdouble);', 'values.back().d = (jdouble)va_arg(list, jlong);'))
bug('lt-va-array-depth', 'C02', (JV, 'signature = jnivm::SkipJNIType(signature + 1, end) - 1;', 'if(signature[1] == \'[\') signature++;\n\t\t\t\tsignature = jnivm::SkipJNIType(signature + 1, end) - 1;'))
bug('lt-va-array-noback', 'C02', (JV, 'signature = jnivm::SkipJNIType(signature + 1, end) - 1;', 'signature = jnivm::SkipJNIType(signature + 1, end);'))
bug('lt-va-object-once', 'C02', (JV, "\t\t\tcase 'L':\n".replace('\t\t\t', '\t\t'), "\t\tcase 'L':\n\t\t\t\tif(signature[1] == ';') break;\n"))
bug('lt-va-short-signless', 'C02', (JV, 'values.back().s = (jshort)va_arg(list, int);', 'values.back().b = (jbyte)va_arg(list, int);'))
bug('lt-skip-object', 'C02', (SK, "cur = std::find(cur, end, ';');", "cur = std::find(cur, end, '/');"))
bug('lt-skip-array', 'C02', (SK, 'cur = SkipJNIType(cur + 1, end) - 1;', 'cur = SkipJNIType(cur + 1, end);'))
bug('lt-skip-double', 'C02', (SK, "    case 'D':\n", "    case 'D':\n            if(cur + 1 != end) cur++;\n"))
bug('lt-invoke-short-char', 'C02', (MT, 'functions->CallStaticShortMethodA', 'functions->CallStaticCharMethodA'))
bug('lt-invoke-float-double', 'C02', (MT, 'functions->CallFloatMethodA', 'functions->CallDoubleMethodA'))
bug('lt-invoke-array-long', 'C02', (MT, "	case '[':\n	case 'L':\n		ret = toJValue(env.GetJNIEnv()->functions->CallObject", "	case '[':\n		ret = toJValue(env.GetJNIEnv()->functions->CallLongMethodA(env.GetJNIEnv(), obj, (jmethodID)this, l));\n		break;\n	case 'L':\n		ret = toJValue(env.GetJNIEnv()->functions->CallObject"))
bug('lt-invoke-index', 'C02', (MT, "jvalue ret;\n	auto type = signature[signature.find_last_of(')') + 1];", "jvalue ret;\n	auto type = signature[signature.find_last_of('(') + 1];"))
bug('lt-native-bool-int', 'C02', (MH, '((jboolean(*)(JNIEnv*', '((jint(*)(JNIEnv*'))
bug('lt-native-long-int', 'C02', (MH, '((jlong(*)(JNIEnv*', '((jint(*)(JNIEnv*'))
bug('lt-native-float-double', 'C02', (MH, '((jfloat(*)(JNIEnv*', '((jdouble(*)(JNIEnv*'))
bug('lt-tojvalue-short', 'C02', (MT, 'memcpy(&ret, &val, sizeof(val));', 'memcpy(&ret, &val, sizeof(val) > 4 ? 4 : sizeof(val));'))
bug('lt-trait-long', 'C02', (JT, 'return v.j;', 'return v.i;'))
bug('lt-trait-float', 'C02', (JT, 'return v.f;', 'return (jfloat) v.d;'))
bug('lt-trait-letter', 'C02', (JT, 'return "S";', 'return "C";'))
bug('lt-default-short', 'C02', (IM, 'NewShortArray(0)', 'NewCharArray(0)'))
bug('lt-default-float', 'C02', (IM, "            case 'F':\n                return env->GetJNIEnv()->NewFloatArray(0);\n", ''))
bug('lt-stub-char', 'C02', (PJ, 'type = "jchar";', 'type = "jshort";'), (PJ, 'type = "FakeJni::JChar";', 'type = "FakeJni::JShort";'))
bug('lt-stub-two', 'C02', (PJ, '		if(!JNIVM_FAKE_JNI_SYNTAX) {\n			type = "jdouble";', '		cur++;\n		if(!JNIVM_FAKE_JNI_SYNTAX) {\n			type = "jdouble";'))
ref('lt-va-local', 'C02', (JV, '		switch (*signature) {', '		const char letter = *signature;\n		jvalue & value = values.back();\n		switch (letter) {'), (JV, 'values.back().i = va_arg(list, jint);', 'value.i = va_arg(list, jint);'))
ref('lt-va-push', 'C02', (JV, '		values.emplace_back();', '		jvalue v;\n		memset(&v, 0, sizeof(v));\n		values.push_back(v);'))
ref('lt-va-skip-all', 'C02', (JV, "				signature = std::find(signature, end, ';');\n				if(signature == end) {", "				signature = jnivm::SkipJNIType(signature, end) - 1;\n				if(signature == end) {"))
ref('lt-va-for', 'C02', (JV, 'for(size_t i = 0; *signature != \')\' && signature != end; ++i) {', "while(*signature != ')' && signature != end) {"))
ref('lt-va-char', 'C02', (JV, 'values.back().b = (jbyte)va_arg(list, int);', 'int promoted = va_arg(list, int);\n				values.back().b = static_cast<jbyte>(promoted);\n			}'), (JV, "		case 'B':\n", "		case 'B': {\n"))
ref('lt-skip-loop', 'C02', (SK, "            cur = SkipJNIType(cur + 1, end) - 1;\n            break;", "            return SkipJNIType(cur + 1, end);"))
ref('lt-skip-if', 'C02', (SK, "    switch (*cur) {\n    case 'V':", "    if(*cur == 'L') {\n        return std::find(cur, end, ';') + 1;\n    }\n    switch (*cur) {\n    case 'V':"), (SK, "    case 'L':\n            cur = std::find(cur, end, ';');\n            break;\n", ''))
ref('lt-invoke-local', 'C02', (MT, '''		ret = toJValue(env.GetJNIEnv()->functions->CallStaticIntMethodA(env.GetJNIEnv(), cl, (jmethodID)this, l));''', '''		{
			auto e = env.GetJNIEnv();
			jint result = e->functions->CallStaticIntMethodA(e, cl, (jmethodID)this, l);
			ret = toJValue(result);
		}'''))
ref('lt-invoke-rfind', 'C02', (MT, "signature[signature.find_last_of(')') + 1]", "signature[signature.rfind(')') + 1]"))
ref('lt-invoke-wrapper', 'C02', (MT, 'env.GetJNIEnv()->functions->CallLongMethodA(env.GetJNIEnv(), obj, (jmethodID)this, l)', 'env.GetJNIEnv()->CallLongMethodA(obj, (jmethodID)this, l)'))
ref('lt-native-return', 'C02', (MH, '''            ret = toJValue(((jint(*)(JNIEnv*, T, impl::JNINativeMethodHelper<param>...))native)(&env, cl, JNITypes<param>::ToJNIReturnType(ENV::FromJNIEnv(&env), params)...));''', '''            {
                auto fn = (jint(*)(JNIEnv*, T, impl::JNINativeMethodHelper<param>...))native;
                ret = toJValue(fn(&env, cl, JNITypes<param>::ToJNIReturnType(ENV::FromJNIEnv(&env), params)...));
            }'''))
ref('lt-tojvalue-union', 'C02', (MT, '	jvalue ret;\n	static_assert(sizeof(T) <= sizeof(jvalue), "jvalue cannot hold the specified type!");\n	memset(&ret, 0, sizeof(ret));', '	jvalue ret = {};\n	static_assert(sizeof(T) <= sizeof(jvalue), "jvalue cannot hold the specified type!");'))
ref('lt-default-elem', 'C02', (IM, 'switch (signature[off + 2])', 'char element = signature[off + 2];\n            switch (element)'))
ref('lt-stub-ternary', 'C02', (PJ, '		if(!JNIVM_FAKE_JNI_SYNTAX) {\n			type = "jint";\n		} else {\n			type = "FakeJni::JInt";\n		}', '		type = JNIVM_FAKE_JNI_SYNTAX ? "FakeJni::JInt" : "jint";'))

# ---- C25
AH = 'include/jnivm/array.h'; AC = 'src/jnivm/internal/array.cpp'
bug('ar-vec-short-copy', 'C25', (AH, 'memcpy(getArray(), vec.data(), sizeof(T) * vec.size());', 'memcpy(getArray(), vec.data(), vec.size());'))
bug('ar-size-plus', 'C25', (AH, 'Array(jsize length) : Array<void>(new T[length], length) {}', 'Array(jsize length) : Array<void>(new T[length > 0 ? length - 1 : 0], length) {}'))
bug('ar-lent-owned', 'C25', (AH, '                } else {\n                    owner = false;\n                }', '                } else if(!data) {\n                    owner = false;\n                }'))
bug('ar-copy-unowned', 'C25', (AH, '                    memcpy(getArray(), data, sizeof(T) * length);\n', '                    memcpy(getArray(), data, sizeof(T) * length);\n                    owner = length > 0;\n'))
bug('ar-index-add', 'C25', (AH, '            inline T& operator[](jint i) {\n                return getArray()[i];', '            inline T& operator[](jint i) {\n                return getArray()[i & 0x7fff];'))
bug('ar-index-unsigned', 'C25', (AH, '            inline const T& operator[](jint i) const {\n                return getArray()[i];', '            inline const T& operator[](jint i) const {\n                return getArray()[(unsigned char)i];'))
bug('ar-get-region-bytes', 'C25', (AC, 'memcpy(buf, ja->getArray() + start, sizeof(T)* len);', 'memcpy(buf, (char*)ja->getArray() + start, sizeof(T)* len);'))
bug('ar-set-region-len', 'C25', (AC, 'memcpy(ja->getArray() + start, buf, sizeof(T)* len);', 'memcpy(ja->getArray() + start, buf, sizeof(T)* (len - start));'))
bug('ar-set-region-buf', 'C25', (AC, 'memcpy(ja->getArray() + start, buf, sizeof(T)* len);', 'memcpy(ja->getArray() + start, buf + start, sizeof(T)* len);'))
bug('ar-get-region-skip', 'C25', (AC, 'memcpy(buf, ja->getArray() + start, sizeof(T)* len);', 'if(start + len < ja->getSize()) memcpy(buf, ja->getArray() + start, sizeof(T)* len);'))
bug('ar-release-frees', 'C25', (AC, '    // Never copied, never free\n', '    if(carr && !a) delete[] (char*)carr;\n'))
bug('ar-elements-copy', 'C25', (AC, '        *iscopy = false;\n', '        *iscopy = true;\n'))
bug('ar-elements-copied', 'C25', (AC, 'return arr ? arr->getArray() : nullptr;', 'if(!arr) return nullptr;\n    if(iscopy && arr->getSize() > 1024) {\n        auto copy = new char[arr->getSize() * 8];\n        memcpy(copy, arr->getArray(), arr->getSize());\n        return (T*)copy;\n    }\n    return arr->getArray();'))
bug('ar-length-bytes', 'C25', (AC, 'return arr ? arr->getSize() : 0;', 'return arr ? arr->getSize() & 0xffff : 0;'))
bug('ar-new-length', 'C25', (AC, 'auto arr = std::make_shared<Array<T>>(length);', 'auto arr = std::make_shared<Array<T>>(std::min(length, 65536));'))
bug('ar-fill-all-but-first', 'C25', (AC, 'for (jsize i = 0; i < length; i++) {', 'for (jsize i = 1; i < length; i++) {'))
bug('ar-set-nocheck', 'C25', (AH, '''        template<class Z, class Base, class Y, class...others> class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
            }
            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                if(val && !nval) {''', '''        template<class Z, class Base, class Y, class...others> class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
            }
            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                if(!nval && !val) {'''))
bug('ar-set-static', 'C25', (AH, '''class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
            }
            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));''', '''class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
            }
            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                if(val && !dynamic_cast<Z*>(val.get()) && val->clazz.lock()) {
                    throw std::runtime_error("Class Type Exception");
                }
                std::shared_ptr<Z> nval(val, (Z*)(void*)(val.get()));'''))
bug('ar-get-as-base', 'C25', (AH, '''class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return ((std::shared_ptr<Z>*) Array''', '''class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return ((std::shared_ptr<Y>*) Array'''))
bug('ar-set-before-check', 'C25', (AH, '''                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                if(val && !nval) {
                    throw std::runtime_error("Class Type Exception");
                }
                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
            }
        };

        // Every''', '''                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
                if(val && !nval) {
                    throw std::runtime_error("Class Type Exception");
                }
            }
        };

        // Every'''))
bug('ar-obj-dtor-leak', 'C25', (AH, '''                if(Array<void>::getArray()) {
                    delete[] (std::shared_ptr<Object>*)Array<void>::getArray();''', '''                if(Array<void>::getArray() && Array<void>::getSize() > 0) {
                    delete[] (std::shared_ptr<Object>*)Array<void>::getArray();'''))
bug('ar-obj-dtor-twice', 'C25', (AH, '''                    delete[] (std::shared_ptr<Y>*)Array<void>::getArray();
                    Array<void>::setArray(nullptr);''', '''                    delete[] (std::shared_ptr<Y>*)Array<void>::getArray();'''))
bug('ar-maker-object', 'C25', (JT, 'auto a = std::make_shared<jnivm::Array<T>>(s);', 'auto a = std::make_shared<jnivm::Array<Object>>(s);'))
bug('ar-setelement-raw', 'C25', (AC, '(*JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a))[i] = v ?', '((std::shared_ptr<Object>*)JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a)->getArray())[i] = v ?'))
bug('ar-getelement-raw', 'C25', (AC, '(std::shared_ptr<Object>) (*JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a))[i]', '((std::shared_ptr<Object>*)JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a)->getArray())[i]'))
ref('ar-vec-copy', 'C25', (AH, 'memcpy(getArray(), vec.data(), sizeof(T) * vec.size());', 'memcpy(getArray(), vec.data(), vec.size() * sizeof(T));'), (AH, 'if(vec.size() > 0) {', 'if(!vec.empty()) {'))
ref('ar-owner-init', 'C25', (AH, '            Array(T* data, jsize length, bool copy) : Array<void>(copy ? new T[length] : data, length) {\n                if(copy) {\n                    memcpy(getArray(), data, sizeof(T) * length);\n                } else {\n                    owner = false;\n                }', '            Array(T* data, jsize length, bool copy) : Array<void>(copy ? new T[length] : data, length), owner(copy) {\n                if(owner) {\n                    memcpy(getArray(), data, sizeof(T) * length);\n                }'))
ref('ar-region-local', 'C25', (AC, 'memcpy(buf, ja->getArray() + start, sizeof(T)* len);', 'const T * first = &(*ja)[start];\n    const size_t bytes = len * sizeof(T);\n    memcpy(buf, first, bytes);'))
ref('ar-region-helper', 'C25', (AC, 'template <class T>\nvoid jnivm::GetArrayRegion', 'template<class T> static T* At(impl::Array<T>& a, jsize i) {\n    return a.getArray() + i;\n}\n\ntemplate <class T>\nvoid jnivm::GetArrayRegion'), (AC, 'memcpy(ja->getArray() + start, buf, sizeof(T)* len);', 'memcpy(At(*ja, start), buf, sizeof(T)* len);'), (AC, 'memcpy(buf, ja->getArray() + start, sizeof(T)* len);', 'memcpy(buf, At(*ja, start), sizeof(T)* len);'))
ref('ar-region-memmove', 'C25', (AC, 'memcpy(ja->getArray() + start, buf, sizeof(T)* len);', 'memmove(ja->getArray() + start, buf, sizeof(T)* len);'))
ref('ar-elements-if', 'C25', (AC, 'return arr ? arr->getArray() : nullptr;', 'if(!arr) {\n        return nullptr;\n    }\n    return arr->getArray();'), (AC, '*iscopy = false;', '*iscopy = JNI_FALSE;'))
ref('ar-elements-flag-late', 'C25', (AC, '    if (iscopy) {\n        *iscopy = false;\n    }\n    auto arr = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);\n    return arr ? arr->getArray() : nullptr;', '    auto arr = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);\n    if (iscopy != nullptr) {\n        *iscopy = 0;\n    }\n    return arr ? arr->getArray() : nullptr;'))
ref('ar-length-if', 'C25', (AC, 'return arr ? arr->getSize() : 0;', 'if(arr) {\n        return arr->getSize();\n    }\n    return 0;'))
ref('ar-set-check-first', 'C25', (AH, '''class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
            }
            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                if(val && !nval) {
                    throw std::runtime_error("Class Type Exception");
                }
                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;''', '''class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
            }
            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                auto nval = std::dynamic_pointer_cast<Z>(val);
                if(val != nullptr && nval == nullptr) {
                    throw std::runtime_error("Class Type Exception");
                }
                auto elements = (std::shared_ptr<Z>*) Array<void>::getArray();
                elements[i] = std::move(nval);'''))
ref('ar-set-null-early', 'C25', (AH, '''class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
            }
            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                if(val && !nval) {
                    throw std::runtime_error("Class Type Exception");
                }
                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;''', '''class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
            std::shared_ptr<Z>& At(jint i) const {
                return ((std::shared_ptr<Z>*) const_cast<void*>(Array<void>::getArray()))[i];
            }
            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
                return At(i);
            }
            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                if(!val) {
                    At(i) = nullptr;
                    return;
                }
                auto p = dynamic_cast<Z*>(val.get());
                if(!p) {
                    throw std::runtime_error("Class Type Exception");
                }
                At(i) = std::shared_ptr<Z>(val, p);'''))
ref('ar-fill-while', 'C25', (AC, 'for (jsize i = 0; i < length; i++) {\n            (*arr)[i] = initial;\n        }', 'jsize i = 0;\n        while(i != length) {\n            (*arr)[i++] = initial;\n        }'))
ref('ar-maker-local', 'C25', (JT, 'auto a = std::make_shared<jnivm::Array<T>>(s);\n                    a->clazz = wref.lock();\n                    return a;', 'std::shared_ptr<jnivm::Array<Object>> a = std::make_shared<jnivm::Array<T>>(s);\n                    a->clazz = wref.lock();\n                    return a;'))
ref('ar-dtor-local', 'C25', (AH, '''                if(Array<void>::getArray()) {
                    delete[] (std::shared_ptr<Y>*)Array<void>::getArray();
                    Array<void>::setArray(nullptr);''', '''                auto elements = (std::shared_ptr<Y>*)Array<void>::getArray();
                if(elements != nullptr) {
                    Array<void>::setArray(nullptr);
                    delete[] elements;'''))
