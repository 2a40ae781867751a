urlpatterns = []
