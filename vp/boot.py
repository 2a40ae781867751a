"""Starts Django with treebeard loaded from the repository: symbolic (instrumented, symdb) or real (plain, SQLite/PG)."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def settings_dict(db, name=None):
    if db == "sym":
        d = {"ENGINE": "vp.symdb", "NAME": "sym"}
    elif db == "sqlite":
        d = {"ENGINE": "django.db.backends.sqlite3", "NAME": name or ":memory:"}
    else:
        d = {"ENGINE": "django.db.backends.postgresql", **name}
    return dict(
        SECRET_KEY="x", USE_TZ=True, DATABASES={"default": d}, DEFAULT_AUTO_FIELD="django.db.models.AutoField",
        INSTALLED_APPS=["django.contrib.auth", "django.contrib.contenttypes", "django.contrib.sessions",
                        "django.contrib.messages", "django.contrib.admin", "treebeard", "vp.vmodels"],
        MIDDLEWARE=["django.contrib.sessions.middleware.SessionMiddleware",
                    "django.contrib.auth.middleware.AuthenticationMiddleware",
                    "django.contrib.messages.middleware.MessageMiddleware"],
        MESSAGE_STORAGE="django.contrib.messages.storage.base.BaseStorage",
        ROOT_URLCONF="vp.urls", STATIC_URL="/static/", DEBUG=False,
        TEMPLATES=[{"BACKEND": "django.template.backends.django.DjangoTemplates", "APP_DIRS": True,
                    "OPTIONS": {"context_processors": ["django.template.context_processors.request",
                                                       "django.contrib.auth.context_processors.auth",
                                                       "django.contrib.messages.context_processors.messages"]}}],
        SILENCED_SYSTEM_CHECKS=[],
    )


def boot(db="sym", ltree=False, name=None, instrument=None):
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if ltree:
        os.environ["VP_LTREE"] = "1"
    venv = "/opt/venv/lib/python3.12/site-packages"
    if venv not in sys.path:
        sys.path.append(venv)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    from vp import instr
    instr.install(db == "sym" if instrument is None else instrument)
    from django.conf import settings
    settings.configure(**settings_dict(db, name))
    if db == "sym":
        from vp import patches
        patches.install()
    import django
    django.setup()
    import logging
    logging.disable(logging.CRITICAL)
    if db == "sym":
        from vp.symdb.base import STORE
        from vp.vmodels.models import MODELS
        STORE.dialect = "postgresql" if ltree else "sqlite"
        from django.db import connection
        connection.vendor = STORE.dialect
        type(connection).vendor = STORE.dialect
        from django.db import models
        for m in MODELS:
            for f in m._meta.local_concrete_fields:
                if f.name == "path":
                    f.vp_symbolic = True
            STORE.create(m)
            for f in m._meta.local_many_to_many:
                STORE.create(f.remote_field.through)
    return settings
